//go:build go1.24

package fmt

import (
	"fmt"

	zos "github.com/crimist/trakx/zz/sh/os"
)

func Print(a ...any) (int, error)            { return zos.Stdout.Write([]byte(fmt.Sprint(a...))) }
func Println(a ...any) (int, error)          { return zos.Stdout.Write([]byte(fmt.Sprintln(a...))) }
func Printf(f string, a ...any) (int, error) { return zos.Stdout.Write([]byte(fmt.Sprintf(f, a...))) }
