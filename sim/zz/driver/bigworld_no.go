//go:build go1.24 && !zzdb

package main

import "github.com/crimist/trakx/zz/rt"

const dbBuild = false

func bigWorld(s *rt.Sim, p *Plan) { s.HarnErr = "this driver was built without the database world" }
