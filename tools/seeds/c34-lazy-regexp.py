id="C34-lazy-regexp"; property="C34"; pkg="internal/domain/valueobjects"; flags="-race"
needs="the first two requests of a process arriving at the same time"
breaks="The pattern of valid names is compiled at its first use, without anything that orders its publication."
edits=[("internal/domain/valueobjects/namespacename.go","	if !regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\\-]*$`).MatchString(value) {","	if namePattern == nil {\n		namePattern = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\\-]*$`)\n	}\n	if !namePattern.MatchString(value) {"),
("internal/domain/valueobjects/namespacename.go","type NamespaceName struct {","// Compiled when it is needed first.\nvar namePattern *regexp.Regexp\n\ntype NamespaceName struct {")]
test='''
package valueobjects

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if _, err := ParseNamespaceName("name"); err != nil {
				t.Error(err)
			}
		}()
	}
	close(start)
	wg.Wait()
}
'''
