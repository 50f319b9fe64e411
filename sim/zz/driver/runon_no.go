//go:build go1.24 && !zzrunon

package main

import "github.com/crimist/trakx/zz/rt"

const runonBuild = false

func runonWorld(s *rt.Sim, p *Plan) { s.HarnErr = "this driver was built without the schedule world" }
