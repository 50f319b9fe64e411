package main

import (
	"fmt"
	"os"
	"path/filepath"
)

// buildDriver instruments a copy of the repository and builds the driver binary for one set of build tags.
func buildDriver(repo, simdir, scratch, tags string) (string, error) {
	name := "default"
	if tags != "" {
		name = tags
	}
	root := filepath.Join(scratch, "src-"+name)
	if err := os.RemoveAll(root); err != nil {
		return "", err
	}
	if err := copyTree(repo, root); err != nil {
		return "", err
	}
	if err := copyTree(filepath.Join(simdir, "zz"), filepath.Join(root, "zz")); err != nil {
		return "", err
	}
	if err := copyFile(filepath.Join(root, "config/embedded/trakx.yaml"), filepath.Join(root, "zz/driver/default.yaml")); err != nil {
		return "", err
	}
	if err := instrument(root, tags); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, "driver-"+name)
	args := []string{"build", "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./zz/driver")
	_, err := goCmd(root, goEnv(), args...)
	return bin, err
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim setup | check ID | replay FILE [-v] | build SCRATCH TAGS")
		os.Exit(harnessError)
	}
	switch a := os.Args[2:]; os.Args[1] {
	case "build":
		b, err := buildDriver(repoDir(), filepath.Join(verifDir(), "sim"), a[0], a[1])
		fmt.Println(b, err)
		if err != nil {
			os.Exit(harnessError)
		}
	case "check":
		os.Exit(check(a))
	case "replay":
		os.Exit(replayFile(a))
	case "setup":
		os.Exit(setup())
	default:
		os.Exit(harnessError)
	}
}
