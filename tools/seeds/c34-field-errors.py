id="C34-field-errors"; property="C34"; pkg="internal/api/shard/endpoints"; flags="-race"
needs="two requests whose fields are invalid answered at the same time"
breaks="The list of invalid fields of an answer is built in memory that all requests share."
edits=[("internal/api/shard/endpoints/helpers.go","		errors := make([]dto.FieldErrorMsg, len(ve))\n","		errors := fieldErrors[:0]\n"),
("internal/api/shard/endpoints/helpers.go","			errors[i] = dto.FieldErrorMsg{\n				Field:   fe.Field(),\n				Message: getFieldErrorMsg(fe),\n			}\n","			errors = append(errors, dto.FieldErrorMsg{\n				Field:   fe.Field(),\n				Message: getFieldErrorMsg(fe),\n			})\n"),
("internal/api/shard/endpoints/helpers.go","for i, fe := range ve","for _, fe := range ve"),
("internal/api/shard/endpoints/helpers.go","// Aborts gin handler execution and sends an HTTP response containing the error\n// description in JSON format.\nfunc AbortWithBindingErrors","// Room for the invalid fields of a request.\nvar fieldErrors = make([]dto.FieldErrorMsg, 0, 8)\n\n// Aborts gin handler execution and sends an HTTP response containing the error\n// description in JSON format.\nfunc AbortWithBindingErrors")]
test='''
package endpoints

import (
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"

	"github.com/gin-gonic/gin"
)

func TestDemo(t *testing.T) {
	gin.SetMode(gin.ReleaseMode)
	r := gin.New()
	NewNamespaceEndpoint(nil).RegisterRoutes(r)
	ask := func() string {
		rec := httptest.NewRecorder()
		r.ServeHTTP(rec, httptest.NewRequest(http.MethodPost, "/api/v1/namespaces", strings.NewReader(`{"name":"c"}`)))
		return rec.Body.String()
	}
	want := ask()
	if !strings.Contains(want, "Type") || !strings.Contains(want, "DislikeFactor") {
		t.Fatal(want)
	}
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				if got := ask(); got != want {
					t.Errorf("%s, want %s", got, want)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''
