id="C13-unordered"; property="C13"
needs="at least three dislikes, removing one that is not among the last two, and looking one up or adding one afterwards"
breaks="removing a dislike does not keep the list sorted, so lookups by bisection miss items"
pkg="internal/domain"
edits=[("internal/domain/profile.go","		p.Dislikes = helpers.RemoveSavingOrder(p.Dislikes, index)","		p.Dislikes = helpers.Remove(p.Dislikes, index)")]
test='''
package domain

import "testing"

func TestDemo(t *testing.T) {
	p := NewProfile(1)
	for i := uint64(1); i < 6; i++ {
		p.Dislike(i)
	}
	p.Like(1)
	p.Undislike(3)
	for i := uint64(2); i < 6; i++ {
		if (p.QualifyItem(i) == ItemDisliked) != (i != 3) {
			t.Fatalf("item %d: %d", i, p.QualifyItem(i))
		}
	}
	for i := 1; i < len(p.Dislikes); i++ {
		if p.Dislikes[i-1] >= p.Dislikes[i] {
			t.Fatal(p.Dislikes)
		}
	}
}
'''
