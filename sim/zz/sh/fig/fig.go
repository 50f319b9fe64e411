//go:build go1.24

package fig

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/kkyr/fig"

	"github.com/crimist/trakx/zz/rt"
	zos "github.com/crimist/trakx/zz/sh/os"
)

// The real loader runs on a private copy of the simulated file, so that parsing is the shipped code.

type opts struct {
	file string
	dirs []string
	env  string
	rest []fig.Option
}

type Option func(*opts)

func File(n string) Option       { return func(o *opts) { o.file = n } }
func Dirs(d ...string) Option    { return func(o *opts) { o.dirs = d } }
func UseEnv(p string) Option     { return func(o *opts) { o.env = p } }
func Tag(t string) Option        { return func(o *opts) { o.rest = append(o.rest, fig.Tag(t)) } }
func TimeLayout(l string) Option { return func(o *opts) { o.rest = append(o.rest, fig.TimeLayout(l)) } }

var (
	ErrFileNotFound = fig.ErrFileNotFound
	memo            = map[string]reflect.Value{}
)

func Load(cfg interface{}, os_ ...Option) error {
	o := &opts{file: "config.yaml", dirs: []string{"."}}
	for _, f := range os_ {
		f(o)
	}
	var data []byte
	found := false
	for _, d := range o.dirs {
		p := filepath.Join(d, o.file)
		if fi, err := zos.Stat(p); err == nil && !fi.IsDir() {
			b, err := zos.ReadFile(p)
			if err != nil {
				return err
			}
			data, found = b, true
			break
		}
	}
	if !found {
		return fmt.Errorf("%s: %w", o.file, fig.ErrFileNotFound)
	}
	rv := reflect.ValueOf(cfg).Elem()
	env := ""
	var names []string
	if o.env != "" {
		for _, kv := range zos.Environ() {
			if k, v, _ := strings.Cut(kv, "="); strings.HasPrefix(strings.ToUpper(k), strings.ToUpper(o.env)+"_") {
				env += kv + "|"
				names = append(names, k)
				os.Setenv(k, v)
			}
		}
	}
	defer func() {
		for _, k := range names {
			os.Unsetenv(k)
		}
	}()
	key := fmt.Sprintf("%s|%s|%v|%s|%s", o.file, o.env, rv.Interface(), env, data)
	if m, ok := memo[key]; ok {
		rv.Set(m)
		return nil
	}
	dir, err := os.MkdirTemp(os.Getenv("ZZ_FIGDIR"), "zzfig")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, o.file), data, 0600); err != nil {
		panic(err)
	}
	args := append([]fig.Option{fig.File(o.file), fig.Dirs(dir)}, o.rest...)
	if o.env != "" {
		args = append(args, fig.UseEnv(o.env))
	}
	if err := fig.Load(cfg, args...); err != nil {
		return err
	}
	if len(memo) >= 64 {
		memo = map[string]reflect.Value{}
	}
	{
		c := reflect.New(rv.Type()).Elem()
		c.Set(rv)
		memo[key] = c
	}
	_ = rt.S
	return nil
}
