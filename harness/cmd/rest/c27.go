//go:build go1.24

package main

import (
	"fmt"
	"os"
	"strings"

	"recengine/internal/api/shard"
	"recengine/internal/zzverif/lib"
)

func init() {
	checks["C27"] = lib.Check{Level: "exploration",
		Rule: "Every combination of host settings, port settings (all texts of up to three characters over an alphabet of digits, signs and others, and boundary numbers) and caller-supplied defaults; also all pairs of them one after the other; against a definition of the port by its characters.",
		Assumptions: []string{
			"whether a number with a plus sign, leading zeros, a base prefix or spaces around it is an integer is left open, and so is the form of a host with colons",
			"an empty setting is an unset one",
		},
		Fn: checkC27,
	}
}

const unset = "\x00unset"

func setenv(k, v string) {
	if v == unset {
		os.Unsetenv(k)
	} else {
		os.Setenv(k, v)
	}
}

// portOf tells what the text means: its number, and whether that is certain.
func portOf(s string) (n uint64, ok, certain bool) {
	if s == unset || s == "" {
		return 0, false, true
	}
	t := s
	certain = true
	if strings.HasPrefix(t, "+") || t == "-0" || t == "-00" || t == "-000" {
		t, certain = t[1:], false
	}
	if t == "" {
		return 0, false, true
	}
	for i := 0; i < len(t); i++ {
		if t[i] < '0' || t[i] > '9' {
			return 0, false, true
		}
		if n > (1<<63-1-uint64(t[i]-'0'))/10 {
			return 0, false, true // more than an int
		}
		n = n*10 + uint64(t[i]-'0')
	}
	return n, true, certain
}

type setting struct {
	host, port string
	def        *shard.Config
}

func (s setting) String() string {
	d := "no defaults"
	if s.def != nil {
		d = fmt.Sprintf("defaults %q, %d", s.def.Host, s.def.Port)
	}
	show := func(v string) string {
		if v == unset {
			return "unset"
		}
		return fmt.Sprintf("%q", v)
	}
	return fmt.Sprintf("host %s, port %s, %s", show(s.host), show(s.port), d)
}

func (s setting) check() {
	setenv("REC_HOST", s.host)
	setenv("REC_PORT", s.port)
	var def *shard.Config
	host, port := "localhost", 8080
	if s.def != nil {
		d := *s.def
		def = &d
		host, port = d.Host, d.Port
	}
	if s.host != unset && s.host != "" {
		host = s.host
	}
	n, ok, certain := portOf(s.port)
	want := port
	if ok {
		want = int(n)
	}
	c := shard.NewConfigFromEnv(def)
	if c == nil {
		lib.Failf("config", "no configuration for %v", s)
	}
	if c.Host != host {
		lib.Failf("host", "the host is %q, should be %q: %v", c.Host, host, s)
	}
	if c.Port != want && (certain || c.Port < 0 && c.Port != port) {
		lib.Failf("port", "the port is %d, should be %d: %v", c.Port, want, s)
	}
	got := c.GetHostPort()
	plain := fmt.Sprintf("%s:%d", host, c.Port)
	if got != plain && (!strings.Contains(host, ":") || got != fmt.Sprintf("[%s]:%d", host, c.Port)) {
		lib.Failf("address", "the address is %q, should be %q: %v", got, plain, s)
	}
}

func checkC27(r *lib.Run) {
	hosts := []string{unset, "", "h", "localhost", "127.0.0.1", "0.0.0.0", "::1", "[::1]", "example.com", "a b", "8080", "-"}
	defs := []*shard.Config{nil, {Host: "", Port: 0}, {Host: "dh", Port: 9}, {Host: "localhost", Port: 8080}, {Host: "x", Port: 65535}}
	ports := []string{unset, "", "8080", "65535", "65536", "99999", "1000000", "2147483647", "2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999", "-9223372036854775808", "-9223372036854775809", "-8080", "+8080", " 8080", "8080 ", "8080\n", "08080", "0x1F90", "0b101", "0o17", "1_000", "0_8", "\t80", "80\r", "\u00a080", "0080", "000000000000000000000008080", "8e3", "8080.0", "80,80", "８０", "٨٠", "http", "8080a", "a8080", "--1", "+-1", "tcp/80", "NaN", "true"}
	alphabet := []byte("0179-+ .axe_")
	for n := 1; n <= 3; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alphabet)
		}
		for i := 0; i < total; i++ {
			s := make([]byte, n)
			for k, x := 0, i; k < n; k++ {
				s[k] = alphabet[x%len(alphabet)]
				x /= len(alphabet)
			}
			ports = append(ports, string(s))
		}
	}
	at := func(i int) setting {
		s := setting{host: hosts[i%len(hosts)]}
		i /= len(hosts)
		s.def = defs[i%len(defs)]
		s.port = ports[i/len(defs)]
		return s
	}
	r.Serial = true
	total := len(hosts) * len(defs) * len(ports)
	r.ForEach("all settings", total, func(i int) string { return at(i).String() }, func(i int) { at(i).check() })
	// One after the other: a configuration must not depend on an earlier one.
	few := []setting{{unset, unset, nil}, {"h", "81", nil}, {"h", "x", defs[2]}, {unset, "82", defs[2]}, {"g", "-1", nil}, {"", "", defs[4]}, {"i", "99999999999999999999", defs[1]}, {unset, "0", nil}}
	n := len(few)
	r.ForEach("all triples one after the other", n*n*n, func(i int) string {
		return fmt.Sprint(few[i%n], "; ", few[i/n%n], "; ", few[i/n/n])
	}, func(i int) {
		few[i%n].check()
		few[i/n%n].check()
		few[i/n/n].check()
	})
}
