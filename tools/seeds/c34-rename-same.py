id="C34-rename-same"; property="C34"; pkg="internal/domain"; flags="-race"
needs="two updates of namespaces' names, or an update and a start, at the same time"
breaks="Renaming compares with the present name before it takes the lock."
edits=[("internal/domain/likenamespace.go","	ns.settingsMutex.Lock()\n	ns.name = name\n	ns.settingsMutex.Unlock()\n","	if ns.name != name {\n		ns.settingsMutex.Lock()\n		ns.name = name\n		ns.settingsMutex.Unlock()\n	}\n")]
test='''
package domain

import (
	"recengine/internal/domain/valueobjects"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	a, _ := valueobjects.ParseNamespaceName("a")
	b, _ := valueobjects.ParseNamespaceName("long-name")
	ns := NewLikeNamespace(&LikeNamespaceDto{Name: a, MaxSimilarProfiles: 1, DislikeFactor: 0.5})
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		name := a
		if g&1 == 1 {
			name = b
		}
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				<-ns.Rename(name)
				if n := ns.GetName(); n != a && n != b {
					t.Error(n)
				}
			}
		}()
	}
	wg.Wait()
}
'''
