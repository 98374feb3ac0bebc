id="C27-empty-default"; property="C27"
needs="caller-supplied defaults with an empty host (listen on all interfaces) and no host configured"
breaks="a caller-supplied empty default host is replaced by the built-in one"
pkg="internal/api/shard"
edits=[("internal/api/shard/config.go","""		if defaults != nil {
			host = defaults.Host
""","""		if defaults != nil && defaults.Host != "" {
			host = defaults.Host
""")]
test='''
package shard

import "testing"

func TestDemo(t *testing.T) {
	t.Setenv("REC_HOST", "")
	if h := NewConfigFromEnv(&Config{Host: "", Port: 1}).Host; h != "" {
		t.Fatal(h)
	}
}
'''
