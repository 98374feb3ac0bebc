id="C15-bisect-end"; property="C15"
needs="a list long enough for the bisection to end on an unexamined inner element"
breaks="the bisection skips the last candidate, so present values are reported absent"
pkg="internal/helpers"
edits=[("internal/helpers/arrays.go","""		if needle == haystack[m] {
			return m
		}
		if needle < haystack[m] {
			if b == m {
				break
			}
			b = m
		} else {
			if a == m {
				break
			}
			a = m
		}
	}
	return -1""","""		if needle == haystack[m] {
			return m
		}
		if needle < haystack[m] {
			b = m - 1
		} else {
			a = m + 1
		}
	}
	return -1""")]
test='''
package helpers

import "testing"

func TestDemo(t *testing.T) {
	for n := 1; n < 9; n++ {
		l := []int{}
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		for i := range l {
			if BinaryIndexOf(l, i) != i {
				t.Fatal(l, i)
			}
		}
	}
}
'''
