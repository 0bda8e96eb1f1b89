package codec

import (
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/jsimonetti/go-artnet/packet/code"
	"verif/report"
)

// flag is one documented bit: its setter is With<name>, its getter <name>, and
// label is how the printed form calls it.
type flag struct {
	name  string
	bit   uint
	label string
}

// field is one documented multi-bit field.
type field struct {
	name  string
	mask  uint8
	shift uint
	names []string
	label string
}

type flagType struct {
	zero   any
	flags  []flag
	fields []field
	// shown lists the flags the printed form states (all, unless said otherwise)
}

func numbered(base string) (out []flag) {
	for i := uint(0); i < 8; i++ {
		n := fmt.Sprintf("%s%d", base, i+1)
		out = append(out, flag{n, i, n})
	}
	return
}

var flagTypes = []flagType{
	{zero: code.TalkToMe(0), flags: []flag{{"ReplyOnChange", 1, "ReplyOnChange"}, {"Diagnostics", 2, "Diagnostics"}, {"DiagUnicast", 3, "as unicast"}, {"VLC", 4, "VLC"}}},
	{zero: code.Status1(0), flags: []flag{{"UBEA", 0, "UBEA"}, {"RDM", 1, "RDM"}, {"BootROM", 2, "BootRom"}},
		fields: []field{{"PortAddr", 0x30, 4, []string{"unknown", "front", "net", "unused"}, "PortAddr"}, {"Indicator", 0xc0, 6, []string{"unknown", "locate", "mute", "normal"}, "Indicator"}}},
	{zero: code.Status2(0), flags: []flag{{"Browser", 0, "Browser"}, {"DHCP", 1, "DHCP"}, {"DHCPCapable", 2, "DHCPCapable"}, {"Port15", 3, "Port 15bit"}, {"Switch", 4, "CanSwitch"}, {"Squawk", 5, "Squawking"}}},
	{zero: code.GoodInput(0), flags: []flag{{"Receive", 2, "ReceiveErrors"}, {"Disabled", 3, "Disabled"}, {"Text", 4, "DMX512Text"}, {"SIP", 5, "DMX512SIP"}, {"Test", 6, "DMX512Test"}, {"Data", 7, "DataReceived"}}},
	{zero: code.GoodOutput(0), flags: []flag{{"ACN", 0, "OutputACN"}, {"LTP", 1, "LTPMergeMode"}, {"Output", 2, "OutputShort"}, {"Merging", 3, "Merging"}, {"Text", 4, "DMX512Text"}, {"SIP", 5, "DMX512SIP"}, {"Test", 6, "DMX512Test"}, {"Data", 7, "DataSending"}}},
	{zero: code.PortType(0), flags: []flag{{"Input", 6, "Input"}, {"Output", 7, "Output"}},
		fields: []field{{"Type", 0x1f, 0, []string{"DMX512", "MIDI", "Avab", "Colortran CMX", "ADB 62.5", "Art-Net"}, "Type"}}},
	{zero: code.SwMacro(0), flags: numbered("Macro")},
	{zero: code.SwRemote(0), flags: numbered("Remote")},
}

func (f flagType) at(v int) reflect.Value {
	x := reflect.New(reflect.TypeOf(f.zero)).Elem()
	x.SetUint(uint64(v))
	return x
}

func call(r *report.Run, v reflect.Value, name string, args ...any) reflect.Value {
	m := v.MethodByName(name)
	if !m.IsValid() {
		r.Inconclusive("%v has no method %s", v.Type(), name)
	}
	in := make([]reflect.Value, len(args))
	for i := range args {
		in[i] = reflect.ValueOf(args[i])
	}
	return m.Call(in)[0]
}

// TestC07: setters and getters, all values.
func TestC07(tt *testing.T) {
	r := begin(tt, "C07")
	for ti, ft := range flagTypes {
		if !r.Mine(ti) {
			continue
		}
		name := reflect.TypeOf(ft.zero).String()
		r.Case(ti, "%s", name)
		for v := 0; v < 256; v++ {
			x := ft.at(v)
			for _, f := range ft.flags {
				got := call(r, x, f.name).Bool()
				if want := v>>f.bit&1 == 1; got != want {
					r.Fail("%s(%#02x).%s() = %v, bit %d says %v", name, v, f.name, got, f.bit, want)
				}
				for _, on := range []bool{false, true} {
					want := v &^ (1 << f.bit)
					if on {
						want = v | 1<<f.bit
					}
					y := call(r, x, "With"+f.name, on)
					if y.Uint() != uint64(want) {
						r.Fail("%s(%#02x).With%s(%v) = %#02x, want %#02x", name, v, f.name, on, y.Uint(), want)
					}
					if g := call(r, y, f.name).Bool(); g != on {
						r.Fail("%s(%#02x).With%s(%v).%s() = %v", name, v, f.name, on, f.name, g)
					}
					r.Eval(1)
					r.Seen("%s %s %d %v", name, f.name, v, on)
				}
				if int(x.Uint()) != v {
					r.Fail("%s: a setter changed its receiver", name)
				}
			}
			for _, f := range ft.fields {
				cur := (v & int(f.mask)) >> f.shift
				got := call(r, x, f.name).String()
				if cur < len(f.names) {
					if got != f.names[cur] {
						r.Fail("%s(%#02x).%s() = %q, field value %d is %q", name, v, f.name, got, cur, f.names[cur])
					}
				} else {
					for _, n := range f.names {
						if got == n {
							r.Fail("%s(%#02x).%s() = %q for the undefined field value %d", name, v, f.name, got, cur)
						}
					}
				}
				for k, n := range f.names {
					want := v&^int(f.mask) | k<<f.shift
					if y := call(r, x, "With"+f.name, n); y.Uint() != uint64(want) {
						r.Fail("%s(%#02x).With%s(%q) = %#02x, want %#02x", name, v, f.name, n, y.Uint(), want)
					}
					r.Eval(1)
					r.Seen("%s %s %d %s", name, f.name, v, n)
				}
				for _, n := range []string{"", "bogus", strings.ToUpper(f.names[1]) + "?", " " + f.names[1]} {
					if y := call(r, x, "With"+f.name, n); y.Uint() != uint64(v) {
						r.Fail("%s(%#02x).With%s(%q) = %#02x, an undocumented name must change nothing", name, v, f.name, n, y.Uint())
					}
					r.Eval(1)
				}
			}
			if v == 0xa5 {
				r.Sample(fmt.Sprintf("%s(%#02x): all setters and getters; printed %v", name, v, x.Interface()))
			}
		}
	}
	r.Done()
}

var opcodes = map[int]string{
	0x2000: "OpPoll", 0x2100: "OpPollReply", 0x2300: "OpDiagData", 0x2400: "OpCommand", 0x5000: "OpOutput|OpDMX|OpDmx", 0x5100: "OpNzs",
	0x5200: "OpSync", 0x6000: "OpAddress", 0x7000: "OpInput", 0x8000: "OpTodRequest", 0x8100: "OpTodData", 0x8200: "OpTodControl",
	0x8300: "OpRdm", 0x8400: "OpRdmSub", 0x9000: "OpMedia", 0x9100: "OpMediaPatch", 0x9200: "OpMediaControl", 0x9300: "OpMediaContrlReply",
	0x9700: "OpTimeCode", 0x9800: "OpTimeSync", 0x9900: "OpTrigger", 0x9a00: "OpDirectory", 0x9b00: "OpDirectoryReply",
	0xa010: "OpVideoSetup", 0xa020: "OpVideoPalette", 0xa040: "OpVideoData", 0xf000: "OpMacMaster", 0xf100: "OpMacSlave",
	0xf200: "OpFirmwareMaster", 0xf300: "OpFirmwareReply", 0xf400: "OpFileTnMaster", 0xf500: "OpFileFnMaster", 0xf600: "OpFileFnReply",
	0xf800: "OpIPProg", 0xf900: "OpIPProgReply",
}

var opConsts = map[int]code.OpCode{
	0x2000: code.OpPoll, 0x2100: code.OpPollReply, 0x2300: code.OpDiagData, 0x2400: code.OpCommand, 0x5000: code.OpDMX, 0x5100: code.OpNzs,
	0x5200: code.OpSync, 0x6000: code.OpAddress, 0x7000: code.OpInput, 0x8000: code.OpTodRequest, 0x8100: code.OpTodData, 0x8200: code.OpTodControl,
	0x8300: code.OpRdm, 0x8400: code.OpRdmSub, 0x9000: code.OpMedia, 0x9100: code.OpMediaPatch, 0x9200: code.OpMediaControl, 0x9300: code.OpMediaContrlReply,
	0x9700: code.OpTimeCode, 0x9800: code.OpTimeSync, 0x9900: code.OpTrigger, 0x9a00: code.OpDirectory, 0x9b00: code.OpDirectoryReply,
	0xa010: code.OpVideoSetup, 0xa020: code.OpVideoPalette, 0xa040: code.OpVideoData, 0xf000: code.OpMacMaster, 0xf100: code.OpMacSlave,
	0xf200: code.OpFirmwareMaster, 0xf300: code.OpFirmwareReply, 0xf400: code.OpFileTnMaster, 0xf500: code.OpFileFnMaster, 0xf600: code.OpFileFnReply,
	0xf800: code.OpIPProg, 0xf900: code.OpIPProgReply,
}

var styles = []string{"Node", "Controller", "Media", "Route", "Backup", "Config", "Visual"}
var styleConsts = []code.StyleCode{code.StNode, code.StController, code.StMedia, code.StRoute, code.StBackup, code.StConfig, code.StVisual}
var prios = map[int]string{0: "DpAll", 0x10: "DpLow", 0x40: "DpMed", 0x80: "DpHigh", 0xe0: "DpCritical", 0xf0: "DpVolatile"}
var prioConsts = map[int]code.PriorityCode{0: code.DpAll, 0x10: code.DpLow, 0x40: code.DpMed, 0x80: code.DpHigh, 0xe0: code.DpCritical, 0xf0: code.DpVolatile}
var reports = []string{"RcDebug", "RcPowerOk", "RcPowerFail", "RcSocketWr1", "RcParseFail", "RcUDPFail", "RcShNameOk", "RcLoNameOk", "RcDmxError",
	"RcDmxUDPFull", "RcDmxRxFull", "RcSwitchErr", "RcConfigErr", "RcDmxShort", "RcFirmwareFail", "RcUserFail", "RcFactoryRes"}
var reportConsts = []code.NodeReportCode{code.RcDebug, code.RcPowerOk, code.RcPowerFail, code.RcSocketWr1, code.RcParseFail, code.RcUDPFail, code.RcShNameOk,
	code.RcLoNameOk, code.RcDmxError, code.RcDmxUDPFull, code.RcDmxRxFull, code.RcSwitchErr, code.RcConfigErr, code.RcDmxShort, code.RcFirmwareFail, code.RcUserFail, code.RcFactoryRes}

var number = regexp.MustCompile(`(0[xX])?[0-9a-fA-F]*[0-9][0-9a-fA-F]*`)

// TestC08: tables and printed forms, all values.
func TestC08(tt *testing.T) {
	r := begin(tt, "C08")
	printed := func(what string, v int, s string, names string, defined bool) {
		r.Eval(1)
		r.Seen("%s %d", what, v)
		if defined {
			for _, n := range strings.Split(names, "|") {
				if s == n {
					return
				}
			}
			r.Fail("%s %#x is printed %q, its name is %s", what, v, s, names)
		}
		if !strings.Contains(s, fmt.Sprint(v)) && !strings.Contains(strings.ToLower(s), fmt.Sprintf("%x", v)) {
			r.Fail("undefined %s %#x is printed %q: the number is missing", what, v, s)
		}
	}
	for hi := 0; hi < 256; hi++ {
		if !r.Mine(hi) {
			continue
		}
		r.Case(hi, "opcodes %#02x..", hi)
		for lo := 0; lo < 256; lo++ {
			v := hi<<8 | lo
			n, def := opcodes[v]
			if def && int(opConsts[v]) != v {
				r.Fail("constant for %s has value %#x, the protocol's is %#x", n, int(opConsts[v]), v)
			}
			if got := code.ValidOp(code.OpCode(v)); got != def {
				r.Fail("opcode %#x: valid=%v, defined=%v", v, got, def)
			}
			printed("opcode", v, code.OpCode(v).String(), n, def)
		}
	}
	base := 256
	if r.Mine(base) {
		r.Case(base, "one-byte codes")
		for v := 0; v < 256; v++ {
			n, def := "", v < len(styles)
			if def {
				n = styles[v]
				if int(styleConsts[v]) != v {
					r.Fail("constant for style %s has value %d", n, styleConsts[v])
				}
			}
			if got := code.ValidStyle(code.StyleCode(v)); got != def {
				r.Fail("style %d: valid=%v, defined=%v", v, got, def)
			}
			printed("style", v, code.StyleCode(v).String(), n, def)
			n, def = prios[v]
			if def && int(prioConsts[v]) != v {
				r.Fail("constant for %s has value %#x", n, int(prioConsts[v]))
			}
			printed("priority", v, code.PriorityCode(v).String(), n, def)
			n, def = "", v < len(reports)
			if def {
				n = reports[v]
				if int(reportConsts[v]) != v {
					r.Fail("constant for %s has value %d", n, reportConsts[v])
				}
			}
			printed("report code", v, code.NodeReportCode(v).String(), n, def)
		}
		r.Sample(fmt.Sprintf("style 1 prints %v, style 9 prints %v, opcode 0x5000 prints %v", code.StyleCode(1), code.StyleCode(9), code.OpCode(0x5000)))
	}
	for ti, ft := range flagTypes {
		if !r.Mine(base + 1 + ti) {
			continue
		}
		name := reflect.TypeOf(ft.zero).String()
		r.Case(base+1+ti, "printed %s", name)
		for v := 0; v < 256; v++ {
			s := fmt.Sprint(ft.at(v).Interface())
			for _, f := range ft.flags {
				m := regexp.MustCompile(`(?:^|[ ,(])` + regexp.QuoteMeta(f.label) + `: ?(\w+)`).FindStringSubmatch(s)
				if m == nil {
					r.Fail("%s(%#02x) is printed %q: flag %s is missing", name, v, s, f.label)
				}
				on, ok := map[string]bool{"yes": true, "on": true, "true": true, "no": false, "off": false, "false": false}[m[1]]
				if want := v>>f.bit&1 == 1; !ok || on != want {
					r.Fail("%s(%#02x) is printed %q: %s should be %v", name, v, s, f.label, want)
				}
				r.Eval(1)
			}
			for _, f := range ft.fields {
				cur := (v & int(f.mask)) >> f.shift
				i := strings.LastIndex(s, f.label+": ")
				if f.label == "Type" {
					i = strings.Index(s, "PortType: Type: ") + len("PortType: ")
				}
				if i < 0 {
					r.Fail("%s(%#02x) is printed %q: field %s is missing", name, v, s, f.label)
				}
				rest := s[i+len(f.label)+2:]
				if j := strings.Index(rest, ","); j >= 0 {
					rest = rest[:j]
				}
				if cur < len(f.names) && rest != f.names[cur] {
					r.Fail("%s(%#02x) is printed %q: %s should be %q", name, v, s, f.label, f.names[cur])
				}
				r.Eval(1)
			}
			r.Seen("%s %d", name, v)
		}
	}
	r.Done()
}
