package verifnd

import (
	"errors"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Dialer answers outgoing connections; without one they are refused.
var Dialer func(addr string) (net.Conn, error)

func dial(addr string) (net.Conn, error) {
	if Dialer == nil {
		return nil, errors.New("connection refused")
	}
	return Dialer(addr)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (net.Conn, error) {
	return dial(raddr.String())
}

func Dial(network, addr string) (net.Conn, error) { return dial(addr) }

func DialTimeout(network, addr string, d time.Duration) (net.Conn, error) { return dial(addr) }

// The schedule of a counterexample: which goroutine completes which
// synchronisation operation. Replays hold every goroutine at its next
// operation until it is that operation's turn. The race detector doesn't see
// these functions, so they order nothing.

type turn struct {
	g    int
	site string
}

var (
	script  []turn
	head    int
	bound   []uint64 // goroutine ids of the schedule's goroutines
	last    time.Time
	waiting [64]int // positions goroutines wait for, one higher (0: none)
	debug   bool
	gap     = 2 * time.Millisecond
)

func loadScript() {
	if os.Getenv("VERIF_GATE") == "0" {
		return
	}
	debug = os.Getenv("VERIF_SCHED") != ""
	for _, e := range data.Events {
		k := strings.Index(e, "|")
		g, err := strconv.Atoi(e[:k])
		if err != nil {
			continue
		}
		for g >= len(bound) {
			bound = append(bound, 0)
		}
		script = append(script, turn{g, e[k+1:]})
	}
	if len(script) > 0 {
		runtime.GOMAXPROCS(1)
		last = time.Now()
	}
}

//go:norace
func goid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	var v uint64
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		v = v*10 + uint64(c-'0')
	}
	return v
}

//go:norace
func mine(t *turn, id uint64, site string) bool {
	if t.site != site {
		return false
	}
	if b := bound[t.g]; b != 0 {
		return b == id
	}
	for _, b := range bound {
		if b == id {
			return false
		}
	}
	return true
}

//go:norace
func release(w int) { waiting[w] = 0 }

// Yield waits for the turn of the operation at site.
//
//go:norace
func Yield(site string) {
	if head >= len(script) || head == 0 && site != script[0].site { // the first entry starts the first goroutine
		return
	}
	id := goid()
	some := false
	for i := head; i < len(script) && !some; i++ {
		some = mine(&script[i], id, site)
	}
	if !some {
		return
	}
	seen, since := head, time.Now()
	w := 0
	for w < len(waiting) && waiting[w] != 0 {
		w++
	}
	if w == len(waiting) {
		return
	}
	defer release(w)
	for {
		if head >= len(script) {
			return
		}
		waiting[w] = len(script) + 1
		for i := head; i < len(script); i++ {
			if mine(&script[i], id, site) {
				waiting[w] = i + 1
				break
			}
		}
		now := time.Now()
		if mine(&script[head], id, site) && now.Sub(last) >= gap {
			bound[script[head].g] = id
			head++
			last = now
			return
		}
		if head != seen {
			seen, since = head, now
		} else if now.Sub(since) > 100*time.Millisecond { // nobody came: skip to who is next
			next := true
			for _, o := range waiting {
				next = next && (o == 0 || o >= waiting[w])
			}
			if next && waiting[w] == len(script)+1 {
				return
			}
			if next {
				if debug {
					println("verif: skipped", script[head].g, script[head].site, "for", script[waiting[w]-1].g, script[waiting[w]-1].site)
				}
				head = waiting[w] - 1
			}
		}
		time.Sleep(200 * time.Microsecond)
	}
}

// YieldT is Yield in a condition.
//
//go:norace
func YieldT(site string) bool {
	Yield(site)
	return true
}

// Sleep passes at once while a schedule is followed (its turn came) and waits
// long behind its end.
//
//go:norace
func Sleep(d time.Duration) {
	switch {
	case len(script) == 0:
		time.Sleep(d)
	case head >= len(script):
		time.Sleep(3 * time.Second)
	}
}
