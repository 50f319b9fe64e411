//go:build go1.24

package rt

// expvarReg holds the published variables of each process.
type expvarReg struct {
	m map[*Proc]map[string]any
}

func newExpvarReg() *expvarReg { return &expvarReg{map[*Proc]map[string]any{}} }

// ExpvarPublish registers a variable of the current process; it tells whether the name was free.
func ExpvarPublish(name string, v any) bool {
	p := CurProc()
	r := S.Expvars.m
	if r[p] == nil {
		r[p] = map[string]any{}
	}
	if _, dup := r[p][name]; dup {
		return false
	}
	r[p][name] = v
	return true
}

// ExpvarAll is the variables of a process.
func ExpvarAll(p *Proc) map[string]any { return S.Expvars.m[p] }
