package system

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"github.com/sirupsen/logrus"
	"verif/gen"
	"verif/ref"
	"verif/verifnet"
	"verif/wire"
)

// said is how much this process has written to standard output and error, which
// are files.
func said() (n int64) {
	for fd := 1; fd <= 2; fd++ {
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil {
			n += st.Size
		}
	}
	return
}

// scribe is a hook that keeps every entry of a logger.
type scribe struct {
	mu      sync.Mutex
	entries []entry
}

type entry struct {
	level logrus.Level
	msg   string
	data  map[string]any
}

func (h *scribe) Levels() []logrus.Level { return logrus.AllLevels }
func (h *scribe) Fire(e *logrus.Entry) error {
	x := entry{level: e.Level, msg: e.Message, data: map[string]any{}}
	for k, v := range e.Data {
		x.data[k] = v
	}
	h.mu.Lock()
	h.entries = append(h.entries, x)
	h.mu.Unlock()
	return nil
}

// lockedBuffer is an output for a logger.
type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
	n  int
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.n++
	return l.b.Write(p)
}

// users is a logger as a user may bring along.
func (s *sim) users() (*logrus.Logger, *logrus.Entry, *scribe, *lockedBuffer, logrus.Fields) {
	l := logrus.New()
	h, out := &scribe{}, &lockedBuffer{}
	l.Out = out
	l.AddHook(h)
	if s.chance(2) {
		l.Formatter = &logrus.JSONFormatter{}
	}
	l.Level = []logrus.Level{logrus.PanicLevel, logrus.ErrorLevel, logrus.WarnLevel, logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel, logrus.DebugLevel, logrus.TraceLevel}[s.IntN(8)]
	l.ExitFunc = func(int) { s.Fail("the library ended the program by a fatal log entry") }
	mine := logrus.Fields{}
	for k := s.IntN(4); k > 0; k-- {
		mine[fmt.Sprintf("mine%d", s.IntN(5))] = s.IntN(1000)
	}
	return l, l.WithFields(mine), h, out, mine
}

// TestC28: the library speaks through its logger and nowhere else.
func TestC28(t *testing.T) {
	r := begin(t, "C28")
	cases(t, r, r.Scale(1500, 30000), "loggers", func(s *sim) {
		before := said()
		switch s.IntN(8) {
		case 0, 1:
			s.fields()
		case 2:
			s.lines()
		default:
			s.speech()
		}
		if n := said() - before; n != 0 {
			s.Fail("%d bytes were written to standard output or error, beside the logger", n)
		}
	})
}

// fields: adding fields gives a logger with these fields and affects no other.
func (s *sim) fields() {
	l, e, h, out, mine := s.users()
	l.Level = logrus.TraceLevel
	kept := fmt.Sprint(e.Data)
	type log = interface {
		Print(...any)
		Printf(string, ...any)
	}
	type leaf struct {
		artnet.Logger
		want logrus.Fields
	}
	root := leaf{artnet.NewLogger(e), mine}
	workers := 1 + s.IntN(6)
	var mu sync.Mutex
	want := map[string]logrus.Fields{}
	rng := newLocked(s)
	all := []leaf{root}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		steps := 5 + s.IntN(40)
		go func() {
			defer wg.Done()
			for k := 0; k < steps; k++ {
				mu.Lock()
				at := all[rng.IntN(len(all))]
				mu.Unlock()
				if rng.IntN(2) == 0 {
					f := artnet.Fields{}
					if rng.IntN(6) == 0 {
						f = nil
					}
					sum := logrus.Fields{}
					for k, v := range at.want {
						sum[k] = v
					}
					for j := rng.IntN(4); j > 0 && f != nil; j-- {
						k, v := fmt.Sprintf("%s%d", []string{"mine", "f", "type"}[rng.IntN(3)], rng.IntN(5)), any(rng.IntN(1000))
						if rng.IntN(5) == 0 {
							v = errors.New("broken")
						}
						f[k], sum[k] = v, v
					}
					n := leaf{at.With(f), sum}
					for k := range f { // the caller's map is the caller's
						f[k] = "changed"
					}
					mu.Lock()
					all = append(all, n)
					mu.Unlock()
					at = n
				}
				runtime.Gosched()
				msg := fmt.Sprintf("w%dk%d", w, k)
				mu.Lock()
				want[msg] = at.want
				mu.Unlock()
				if x := at.Logger.With(nil); rng.IntN(2) == 0 {
					[]func(...any){x.Debug, x.Info, x.Warn, x.Error, x.Print}[rng.IntN(5)](msg)
				} else {
					log(at.Logger).Print(msg)
				}
			}
		}()
	}
	wg.Wait()
	if fmt.Sprint(e.Data) != kept {
		s.Fail("the fields of the user's logger became %v", e.Data)
	}
	if len(h.entries) != len(want) {
		s.Fail("%d entries instead of %d", len(h.entries), len(want))
	}
	if out.n != len(want) {
		s.Fail("%d entries were written as %d", len(want), out.n)
	}
	for _, x := range h.entries {
		s.Eval(1)
		w, ok := want[x.msg]
		if !ok || !reflect.DeepEqual(map[string]any(w), x.data) && len(w)+len(x.data) > 0 {
			s.Fail("entry %q has the fields %v instead of %v", x.msg, x.data, w)
		}
	}
	s.Count("entries with fields", len(h.entries))
	s.Seen("fields %d %d %d", workers, len(all)/4, len(want)/4)
}

// lines: the default logger writes whole lines to standard output.
func (s *sim) lines() {
	f, err := os.CreateTemp(".", "out") // in the scratch directory of this run
	if err != nil {
		s.Inconclusive("%v", err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	old := os.Stdout
	os.Stdout = f
	l := artnet.NewDefaultLogger()
	os.Stdout = old
	workers, each := 1+s.IntN(8), 1+s.IntN(60)
	long := strings.Repeat("x", s.IntN(3)*s.IntN(3000))
	var wg sync.WaitGroup
	want := map[string]int{}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		for k := 0; k < each; k++ {
			want[fmt.Sprintf("<m%dw%d>", k, w)]++
			want[fmt.Sprintf("<f%dw%d>", k, w)]++
		}
		go func() {
			defer wg.Done()
			x := l.With(artnet.Fields{"worker": w})
			for k := 0; k < each; k++ {
				e := x.With(artnet.Fields{"field": fmt.Sprintf("<f%dw%d>", k, w), "long": long})
				m := fmt.Sprintf("<m%dw%d>", k, w)
				[]func(...any){e.Debug, e.Info, e.Warn, e.Error, e.Print}[k%5](m)
			}
		}()
	}
	wg.Wait()
	b, _ := os.ReadFile(f.Name())
	text := string(b)
	if !strings.HasSuffix(text, "\n") {
		s.Fail("the default logger's last line is not complete")
	}
	got := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	if len(got) != workers*each {
		s.Fail("%d entries were written as %d lines", workers*each, len(got))
	}
	for _, line := range got {
		s.Eval(1)
		var k, w int
		i, j := strings.Index(line, "<m"), strings.Index(line, "<f")
		if i < 0 || j < 0 || strings.Count(line, "<m")+strings.Count(line, "<f") != 2 {
			s.Fail("not one whole entry: %s", line)
		}
		fmt.Sscanf(line[i:], "<m%dw%d>", &k, &w)
		if !strings.HasPrefix(line[j:], fmt.Sprintf("<f%dw%d>", k, w)) || long != "" && !strings.Contains(line, long) {
			s.Fail("an entry with the fields of another one: %s", line)
		}
		want[fmt.Sprintf("<m%dw%d>", k, w)]--
		if want[fmt.Sprintf("<m%dw%d>", k, w)] < 0 {
			s.Fail("an entry was written twice: %s", line)
		}
	}
	s.Count("lines", len(got))
	s.Seen("lines %d %d %d", workers, each, len(long)/1000)
}

// speech: a node or controller at work uses the logger it was given and nothing else.
func (s *sim) speech() {
	l, e, h, out, mine := s.users()
	level, format, kept := l.Level, l.Formatter, fmt.Sprint(e.Data)
	given := artnet.NewLogger(e)
	var it startable
	var ctl *artnet.Controller
	isNode := s.chance(2)
	if isNode {
		cfg := ref.RandConfig(s.Rand)
		cfg.IP = hostIP
		n := artnet.NewNode(cfg.Name, cfg.Type, hostIP, given)
		n.Config = cfg
		if s.chance(6) {
			s.spoil(&n.Config)
		}
		n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) {})
		it = n
	} else {
		ctl = artnet.NewController("ctl", hostIP, given, artnet.MaxFPS([]int{5, 44, 1000}[s.IntN(3)]))
		it = ctl
	}
	sig := ""
	dev := &device{ip: net.IP{10, 8, 0, 1}, bind: 1, net: 1, sub: 1, out: []uint8{1, 2}, name: "d"}
	s.w.WriteFault = func(verifnet.Event) error {
		if s.no%3 == 0 {
			return syscall.EHOSTUNREACH
		}
		return nil
	}
	for life := 1 + s.IntN(3); life > 0; life-- {
		if s.chance(6) {
			s.w.ListenFault = func(net.UDPAddr) error { return syscall.EADDRINUSE }
		}
		err := it.Start()
		s.w.ListenFault = nil
		if err != nil {
			sig += "f"
			it.Stop()
			continue
		}
		conn := s.theConn()
		for k := 1 + s.IntN(20); k > 0; k-- {
			switch s.IntN(6) {
			case 0:
				conn.InjectReadError(netErrs[s.IntN(len(netErrs))])
				sig += "e"
			case 1:
				conn.Inject(s.foreign(), s.nasty())
				sig += "n"
			case 2:
				conn.Inject(s.foreign(), gen.Valid(s.Rand, wire.Types[s.IntN(len(wire.Types))]))
				sig += "v"
			case 3:
				s.announce(conn, dev)
				synctest.Wait()
				sig += "a"
			case 4:
				if ctl != nil {
					ctl.SendDMXToAddress([512]byte{1}, dev.addr(uint8(s.IntN(4))))
				}
				sig += "d"
			default:
				time.Sleep(s.dur(12 * time.Second))
				sig += "t"
			}
		}
		it.Stop()
		if s.chance(3) {
			it.Stop()
		}
		synctest.Wait()
	}
	synctest.Wait()
	s.Eval(1)
	if l.GetLevel() != level || l.Out != any(out) || l.Formatter != format || fmt.Sprint(e.Data) != kept {
		s.Fail("the user's logger was changed: level %v, fields %v", l.GetLevel(), e.Data)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if out.n != len(h.entries) {
		s.Fail("%d entries, but %d were written to the user's output", len(h.entries), out.n)
	}
	for _, x := range h.entries {
		s.Eval(1)
		if x.level <= logrus.FatalLevel {
			s.Fail("the library logged %q as %v", x.msg, x.level)
		}
		for k, v := range mine {
			if !reflect.DeepEqual(x.data[k], v) {
				s.Fail("entry %q: the user's field %s is %v instead of %v", x.msg, k, x.data[k], v)
			}
		}
	}
	s.Count("entries", len(h.entries))
	s.Seen("speech %v %v %s", isNode, level, sig)
	if s.WantSample() {
		s.Sample(map[string]any{"node": isNode, "level": level.String(), "history (e read error, n hostile, v valid, a announcement, d DMX, t time, f failed start)": sig, "entries": len(h.entries)})
	}
}
