//go:build go1.24

package rt

import (
	"errors"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// PG is the simulated Postgres server: one table of timestamped images.
type PG struct {
	s        *Sim
	Created  bool
	Rows     []PGRow
	MaxConn  int
	open     map[*PGConn]bool
	K        PGKnobs
	Inserts  int
	PeakConn int
	Down     bool
	Step     int64
	CrashAt  int64
	OnCrash  func()
	nrow     int64
	sent     []*pgStmt // statements on their way
}

type pgStmt struct {
	c    *PGConn
	q    string
	args []any
}

type PGRow struct {
	TS    int64 // wall ns
	Bytes []byte
	ID    int64
}

type PGKnobs struct {
	Err, Lost, LostAfter int // statement fails / connection lost before / after execution, permille
	Lat                  int64
}

type PGConn struct {
	Proc *Proc
	Bad  bool
}

func newPG(s *Sim) *PG {
	return &PG{s: s, MaxConn: 100, open: map[*PGConn]bool{}, CrashAt: -1}
}

func (g *PG) closeProc(p *Proc) {
	// a statement that was sent may still be executed after its sender died
	var keep []*pgStmt
	for _, st := range g.sent {
		if st.c.Proc != p {
			keep = append(keep, st)
		} else if !g.Down && g.K.Lost < 1000 && g.K.Err < 1000 && g.s.Chance(SFault, 500) {
			_, err := g.exec(st.q, st.args)
			g.s.Inc("fault.pg_commit_after_exit")
			g.s.Logf("pg after the client died %.60q -> %v", st.q, err)
		}
	}
	g.sent = keep
	for c := range g.open {
		if c.Proc == p {
			delete(g.open, c)
		}
	}
}

// InUse is the number of connections the server holds.
func (g *PG) InUse() int { return len(g.open) }

var ErrBadConn = errors.New("driver: bad connection")

func (g *PG) step() {
	alive()
	g.Step++
	if g.CrashAt > 0 {
		g.CrashAt--
		if g.CrashAt == 0 {
			g.CrashAt = -1
			g.s.Inc("fault.crash_in_pg_op")
			g.OnCrash()
			alive()
		}
	}
	if g.K.Lat > 0 {
		if d := int64(g.s.Draw(SFault, 1000)) * g.K.Lat / 1000; d > 0 {
			g.s.Inc("fault.pg_slow")
			SleepTask(d)
		}
	}
	SyncPoint()
}

// Connect opens a server connection.
func (g *PG) Connect() (*PGConn, error) {
	g.step()
	if g.Down || g.s.Chance(SFault, g.K.Lost) {
		g.s.Inc("fault.pg_refused")
		return nil, errors.New("dial tcp 192.0.2.9:5432: connect: connection refused")
	}
	if len(g.open) >= g.MaxConn {
		g.s.Inc("pg.too_many_clients")
		return nil, errors.New("pq: sorry, too many clients already")
	}
	c := &PGConn{Proc: CurProc()}
	g.open[c] = true
	if len(g.open) > g.PeakConn {
		g.PeakConn = len(g.open)
	}
	return c, nil
}

func (g *PG) Close(c *PGConn) { delete(g.open, c) }

var (
	reCreate = regexp.MustCompile(`(?is)^\s*create\s+table\s+if\s+not\s+exists\s+trakx\b`)
	reInsert = regexp.MustCompile(`(?is)^\s*insert\s+into\s+trakx\s*\(\s*bytes\s*\)\s*values\s*\(\s*\$1\s*\)`)
	reSelect = regexp.MustCompile(`(?is)^\s*select\s+(bytes\s*,\s*ts|ts\s*,\s*bytes|bytes|ts)\s+from\s+trakx(.*)$`)
	reDelTS  = regexp.MustCompile(`(?is)^\s*delete\s+from\s+trakx\s+where\s+ts\s*<\s*now\(\)\s*-\s*interval\s+'(\d+)\s+(day|hour|minute|second)s?'`)
	reDelOff = regexp.MustCompile(`(?is)^\s*delete\s+from\s+trakx\s+where\s+ctid\s+in\s*\(\s*select\s+ctid\s+from\s+trakx\s+order\s+by\s+(ctid|ts)(\s+desc|\s+asc)?\s+offset\s+(\d+)\s*\)`)
	reOrder  = regexp.MustCompile(`(?is)order\s+by\s+(ts|ctid)(\s+desc|\s+asc)?`)
	reLimit  = regexp.MustCompile(`(?is)limit\s+(\d+)`)
	rePing   = regexp.MustCompile(`(?is)^\s*(select\s+1\s*)?;?\s*$`)
)

// Result of a statement.
type PGResult struct {
	Cols     []string
	Rows     [][]any // []byte or int64 (wall ns)
	Affected int64
}

// Run executes one statement on a connection.
func (g *PG) Run(c *PGConn, q string, args []any) (*PGResult, error) {
	st := &pgStmt{c, q, args}
	g.sent = append(g.sent, st)
	g.step()
	for i := range g.sent {
		if g.sent[i] == st {
			g.sent = append(g.sent[:i], g.sent[i+1:]...)
			break
		}
	}
	if !g.open[c] || c.Bad {
		return nil, ErrBadConn
	}
	if g.Down || g.s.Chance(SFault, g.K.Lost) {
		g.s.Inc("fault.pg_conn_lost")
		c.Bad = true
		delete(g.open, c)
		return nil, ErrBadConn
	}
	if g.s.Chance(SFault, g.K.Err) {
		g.s.Inc("fault.pg_stmt_error")
		return nil, errors.New("pq: could not extend file \"base/1/2\": No space left on device")
	}
	r, err := g.exec(q, args)
	g.s.Logf("pg %.60q -> %v", q, err)
	if err == nil && g.s.Chance(SFault, g.K.LostAfter) {
		g.s.Inc("fault.pg_conn_lost_after_commit")
		c.Bad = true
		delete(g.open, c)
		return nil, errors.New("read tcp: connection reset by peer")
	}
	return r, err
}

func (g *PG) exec(q string, args []any) (*PGResult, error) {
	r := &PGResult{}
	switch {
	case rePing.MatchString(q):
		return r, nil
	case reCreate.MatchString(q):
		g.Created = true
		return r, nil
	case !g.Created:
		return nil, errors.New("pq: relation \"trakx\" does not exist")
	case reInsert.MatchString(q):
		if len(args) != 1 {
			return nil, errors.New("pq: got wrong number of parameters")
		}
		var b []byte
		switch x := args[0].(type) {
		case []byte:
			b = append([]byte{}, x...)
		case string:
			b = []byte(x)
		case nil:
		default:
			return nil, errors.New("pq: bad parameter")
		}
		g.nrow++
		// ts is now() of the database server: its own clock, microseconds
		g.Rows = append(g.Rows, PGRow{(g.s.Cfg.WallBase + g.s.now) / 1000 * 1000, b, g.nrow})
		g.Inserts++
		r.Affected = 1
		return r, nil
	case reDelTS.MatchString(q):
		m := reDelTS.FindStringSubmatch(q)
		n, _ := strconv.ParseInt(m[1], 10, 64)
		unit := map[string]int64{"day": 86400, "hour": 3600, "minute": 60, "second": 1}[strings.ToLower(m[2])]
		lim := g.s.Cfg.WallBase + g.s.now - n*unit*1e9
		var keep []PGRow
		for _, x := range g.Rows {
			if x.TS < lim {
				r.Affected++
			} else {
				keep = append(keep, x)
			}
		}
		g.Rows = keep
		return r, nil
	case reDelOff.MatchString(q):
		m := reDelOff.FindStringSubmatch(q)
		off, _ := strconv.Atoi(m[3])
		rows := g.sorted(m[1], strings.TrimSpace(strings.ToLower(m[2])) == "desc")
		del := map[int64]bool{}
		for i := off; i < len(rows); i++ {
			del[rows[i].ID] = true
		}
		var keep []PGRow
		for _, x := range g.Rows {
			if del[x.ID] {
				r.Affected++
			} else {
				keep = append(keep, x)
			}
		}
		g.Rows = keep
		return r, nil
	case reSelect.MatchString(q):
		m := reSelect.FindStringSubmatch(q)
		rows := append([]PGRow(nil), g.Rows...)
		if o := reOrder.FindStringSubmatch(m[2]); o != nil {
			rows = g.sorted(o[1], strings.TrimSpace(strings.ToLower(o[2])) == "desc")
		}
		if l := reLimit.FindStringSubmatch(m[2]); l != nil {
			n, _ := strconv.Atoi(l[1])
			if n < len(rows) {
				rows = rows[:n]
			}
		}
		for _, c := range strings.Split(m[1], ",") {
			r.Cols = append(r.Cols, strings.ToLower(strings.TrimSpace(c)))
		}
		for _, x := range rows {
			var vs []any
			for _, c := range r.Cols {
				if c == "ts" {
					vs = append(vs, x.TS)
				} else {
					vs = append(vs, x.Bytes)
				}
			}
			r.Rows = append(r.Rows, vs)
		}
		return r, nil
	}
	return nil, errors.New("pq: syntax error: the simulated server does not know this statement: " + q)
}

func (g *PG) sorted(by string, desc bool) []PGRow {
	rows := append([]PGRow(nil), g.Rows...)
	sort.SliceStable(rows, func(i, j int) bool {
		a, b := rows[i], rows[j]
		if desc {
			a, b = b, a
		}
		if strings.EqualFold(by, "ts") && a.TS != b.TS {
			return a.TS < b.TS
		}
		return a.ID < b.ID
	})
	return rows
}
