id="C27-port16"; property="C27"
needs="a configured port above 65535"
breaks="a port out of the usual range is replaced by the default instead of being reported when listening"
pkg="internal/api/shard"
edits=[("internal/api/shard/config.go","""	port, err := strconv.Atoi(os.Getenv("REC_PORT"))
	if err != nil || port < 0 {
""","""	value, err := strconv.ParseUint(os.Getenv("REC_PORT"), 10, 16)
	port := int(value)
	if err != nil {
""")]
test='''
package shard

import "testing"

func TestDemo(t *testing.T) {
	t.Setenv("REC_PORT", "65536")
	if p := NewConfigFromEnv(nil).Port; p != 65536 {
		t.Fatal(p)
	}
}
'''
