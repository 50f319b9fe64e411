//go:build go1.24 && !zzdb

package main

import "github.com/crimist/trakx/zz/rt"

func dbWorld(s *rt.Sim, p *Plan) { s.HarnErr = "this driver was built without the database world" }
