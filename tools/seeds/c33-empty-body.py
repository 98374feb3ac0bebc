id="C33-empty-body"
property="C33"
needs="a creation or update without any body"
breaks="the answer to a request without a body carries no description"
pkg="internal/api/shard/endpoints"
edits=[("internal/api/shard/endpoints/helpers.go",'''	var ve validator.ValidationErrors
	if errors.As(err, &ve) {
''','''	if errors.Is(err, io.EOF) {
		// Nothing to explain
		ctx.AbortWithStatus(http.StatusBadRequest)
		return
	}
	var ve validator.ValidationErrors
	if errors.As(err, &ve) {
'''),("internal/api/shard/endpoints/helpers.go",'''	"errors"
''','''	"errors"
	"io"
'''),("internal/api/shard/endpoints/helpers.go",'''		errors := make([]dto.FieldErrorMsg, len(ve))
		for i, fe := range ve {
			errors[i] = dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: getFieldErrorMsg(fe),
			}
		}
		ctx''','''		fields := make([]dto.FieldErrorMsg, len(ve))
		for i, fe := range ve {
			fields[i] = dto.FieldErrorMsg{
				Field:   fe.Field(),
				Message: getFieldErrorMsg(fe),
			}
		}
		ctx'''),("internal/api/shard/endpoints/helpers.go",'''			"errors": errors,
''','''			"errors": fields,
''')]
test='''package endpoints
import (
	"net/http/httptest"
	"strings"
	"testing"
	"encoding/json"
	"github.com/gin-gonic/gin"
)
func TestDemo(t *testing.T) {
	e := gin.New()
	NewNamespaceEndpoint(nil).RegisterRoutes(e)
	for _, body := range []string{"", "{", "[]"} {
		w := httptest.NewRecorder()
		e.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/namespaces", strings.NewReader(body)))
		var x struct{ Message string }
		if json.Unmarshal(w.Body.Bytes(), &x) != nil || x.Message == "" {
			t.Errorf("%q: %d %q", body, w.Code, w.Body.String())
		}
	}
}
'''
