id="C14-empty-side"; property="C14"
needs="two profiles of which only one has dislikes (or likes), and the other kind overlapping"
breaks="lists of which one is empty lose their weight, so the similarity is too high"
pkg="internal/domain"
edits=[("internal/domain/profile.go","""	conjunction := 0
	for""","""	if len(itemsA) == 0 || len(itemsB) == 0 {
		return 0, 0
	}
	conjunction := 0
	for""")]
test='''
package domain

import "testing"

func TestDemo(t *testing.T) {
	a := &Profile{Likes: []uint64{1}, Dislikes: []uint64{2}}
	b := Profile{Likes: []uint64{1}, Dislikes: []uint64{}}
	if s := a.ComputeSimilarity(b, 1); s != 50 {
		t.Fatal(s)
	}
}
'''
