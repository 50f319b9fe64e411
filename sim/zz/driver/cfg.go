//go:build go1.24

package main

import "fmt"

const (
	cfgPath  = "/home/sim/.config/trakx/trakx.yaml"
	cacheDir = "/home/sim/.cache/trakx/"
	backupF  = "/data/peers.db"
	connF    = cacheDir + "conn.db"
	pidF     = cacheDir + "trakx.pid"
	logF     = cacheDir + "trakx.log"
)

var bindIPs = []string{"null", "192.0.2.1", "127.0.0.1", "'::1'", "0.0.0.0", "'2001:db8:ffff::1'", "'::'"}

func yesno(v int64) string {
	if v != 0 {
		return "true"
	}
	return "false"
}

func configYAML(p *Plan) string {
	mode := [...]string{"disabled", "enabled", "info"}[p.k("http")]
	bt := [...]string{"none", "file", "pg"}[p.k("btype")]
	path := backupF
	if bt == "pg" {
		path = "postgres://sim/trakx"
	}
	ll := "info"
	if p.k("debug") != 0 {
		ll = "debug"
	}
	return fmt.Sprintf(`loglevel: "%s"
expvarinterval: %ds
debug:
  pprof: 0
announce:
  base: %ds
  fuzz: %ds
http:
  mode: "%s"
  ip: %s
  port: %d
  timeout:
    read: %dms
    write: %dms
  threads: %d
udp:
  enabled: %s
  ip: %s
  port: %d
  threads: %d
  conndb:
    validate: %s
    size: %d
    trim: %ds
    expiry: %ds
numwant:
  default: %d
  limit: %d
db:
  type: "gomap"
  backup:
    frequency: %ds
    type: "%s"
    path: "%s"
  trim: %ds
  expiry: %ds
path:
  log: "~/.cache/trakx/trakx.log"
  pid: "~/.cache/trakx/trakx.pid"
`, ll, p.k("expvar"), p.k("base"), p.k("fuzz"), mode, bindIPs[p.k("hip")], p.k("port"), p.k("rto"), p.k("wto"), p.k("hthreads"),
		yesno(p.k("udp")), bindIPs[p.k("uip")], p.k("port"), p.k("uthreads"), yesno(p.k("validate")), p.k("csize"), p.k("ctrim"), p.k("cexp"),
		p.k("nwdef"), p.k("nwlim"), p.k("bfreq"), bt, path, p.k("trim"), p.k("exp"))
}
