//go:build go1.24

package log

import (
	"fmt"
	"io"
	"log"

	"github.com/crimist/trakx/zz/rt"
)

func init() { log.SetOutput(io.Discard) }

func Fatal(v ...any)            { rt.Fatal(fmt.Sprint(v...)) }
func Fatalf(f string, v ...any) { rt.Fatal(fmt.Sprintf(f, v...)) }
func Fatalln(v ...any)          { rt.Fatal(fmt.Sprintln(v...)) }
