id="C33-same-message"
property="C33"
needs="two fields of the same body with the same kind of mistake, e.g. both missing"
breaks="only the first of two missing fields is named in the answer"
pkg="internal/api/shard/endpoints"
edits=[("internal/api/shard/endpoints/helpers.go",'''		errors := make([]dto.FieldErrorMsg, len(ve))
		for i, fe := range ve {
			errors[i] = dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: getFieldErrorMsg(fe),
			}
		}
''','''		errors := make([]dto.FieldErrorMsg, 0, len(ve))
		reported := make(map[string]bool)
		for _, fe := range ve {
			message := getFieldErrorMsg(fe)
			if reported[message] {
				continue
			}
			reported[message] = true
			errors = append(errors, dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: message,
			})
		}
''')]
test='''package endpoints
import (
	"net/http/httptest"
	"strings"
	"testing"
	"github.com/gin-gonic/gin"
)
func TestDemo(t *testing.T) {
	e := gin.New()
	NewNamespaceEndpoint(nil).RegisterRoutes(e)
	w := httptest.NewRecorder()
	e.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/namespaces", strings.NewReader(`{"maxSimilarProfiles":5}`)))
	s := strings.ToLower(w.Body.String())
	for _, f := range []string{"\\"name\\"", "\\"type\\"", "\\"dislikefactor\\""} {
		if w.Code != 400 || !strings.Contains(s, f) {
			t.Error(w.Code, s, "lacks", f)
		}
	}
}
'''
