From 9d09a2101031d6b2fd668d73bbdf9c8d7aa42303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:53 +0000
Subject: [PATCH 01/40] fix: decode the merged document into the OpenAPI model,
 not into its version string

newOAPI unmarshalled the whole document into a string field, so every
Scan ended with an error.
---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 50ef4bd..a756679 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,7 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o.OpenAPI)
+	err = json.Unmarshal(c.Bytes(), &x.o)
 	return x, err
 }
 
-- 
2.43.0


From 2b8dbd80b253923c12b9367df1cd8d7a463bd234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:52 +0000
Subject: [PATCH 02/40] fix: Container.IsNil panicked on scalar values

reflect.Value.IsNil panics for strings, numbers and booleans, so a
document with `info: text` crashed the scan.
---
 internal/container/container.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index c0f28b7..0e25014 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -134,7 +134,14 @@ func (c Container) Data() interface{} {
 
 // IsNil reports if underlying value of container is nil.
 func (c Container) IsNil() bool {
-	return c.Data() == nil || reflect.ValueOf(c.Data()).IsNil()
+	v := reflect.ValueOf(c.Data())
+	switch v.Kind() {
+	case reflect.Invalid:
+		return true
+	case reflect.Map, reflect.Slice, reflect.Ptr, reflect.Interface, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	}
+	return false
 }
 
 // FilePath returns file path of given container if was ReadFile was used.
-- 
2.43.0


From ec9dbbef22ddb8868e001e0497dd4a6b3518546d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:54 +0000
Subject: [PATCH 03/40] fix: Container.Merge dropped a document it could not
 copy

Clone swallows its error and forgets the file path: a YAML document with
.inf or .nan vanished from the merged specification without an error, and
collision messages never named the file.
---
 internal/container/merge.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/container/merge.go b/internal/container/merge.go
index 5de0eb1..b9b73c4 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -27,7 +27,10 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 // Which ever value is returned becomes the new value in the destination object
 // at the location of the collision.
 func (c Container) Merge(source Container, collisionFn Merger) error {
-	source = source.Clone() // make sure we are not moving pointers
+	data, err := clone(source.c.Data()) // make sure we are not moving pointers
+	if err != nil {
+		return errors.Wrapf(err, "at %s", source.path)
+	}
 
 	var recursiveFnc func(map[string]interface{}, []string) error
 
@@ -74,7 +77,7 @@ func (c Container) Merge(source Container, collisionFn Merger) error {
 		}
 		return nil
 	}
-	if mmap, ok := source.c.Data().(map[string]interface{}); ok {
+	if mmap, ok := data.(map[string]interface{}); ok {
 		return recursiveFnc(mmap, []string{})
 	}
 	return nil
-- 
2.43.0


From 94116e1948f8c7a3e3608e27feb3aab335a4764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 04/40] fix: escape '~' before '.' when building a dot path

The tilde of an escaped dot was escaped again, so /v1/pets.json was written
under a different key than the one it was read from.
---
 internal/container/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index aa46e0c..85bc911 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -38,8 +38,8 @@ func ExtractKey(c Container, key string) (pp MapSlice, err error) {
 func SliceToDotPath(path []string) string {
 	hierarchy := make([]string, len(path))
 	for i, v := range path {
-		v = strings.Replace(v, ".", "~1", -1)
 		v = strings.Replace(v, "~", "~0", -1)
+		v = strings.Replace(v, ".", "~1", -1)
 		hierarchy[i] = v
 	}
 	return strings.Join(hierarchy, ".")
-- 
2.43.0


From 69bb13210c8c8a1718707334ecb1f740da528530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 05/40] fix: order keys of equal rank by name

Keys which are not listed in the order all share index -1, so their order in
the formatted document followed the random map iteration.
---
 internal/container/sort.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index e6eb170..f5e43cc 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -98,6 +98,13 @@ type MapItem struct {
 	Index int
 }
 
+func (mi MapItem) less(x MapItem) bool {
+	if mi.Index != x.Index {
+		return mi.Index < x.Index
+	}
+	return mi.Key < x.Key
+}
+
 // MapSlice of map items.
 type MapSlice []MapItem
 
@@ -112,7 +119,7 @@ func (ms MapSlice) Values() (vx []interface{}) {
 // sort interface support
 
 func (ms MapSlice) Len() int           { return len(ms) }
-func (ms MapSlice) Less(i, j int) bool { return ms[i].Index < ms[j].Index }
+func (ms MapSlice) Less(i, j int) bool { return ms[i].less(ms[j]) }
 func (ms MapSlice) Swap(i, j int)      { ms[i], ms[j] = ms[j], ms[i] }
 
 // Sort will sort items by index and return copy
-- 
2.43.0


From b96db3035a0b54ec263d2119a8ebe1b46fa0da5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 06/40] fix: write MapSlice keys as JSON strings

%q produces Go escapes such as \x00 or \a, which are not valid JSON.
---
 internal/container/sort.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/container/sort.go b/internal/container/sort.go
index f5e43cc..3f01d30 100644
--- a/internal/container/sort.go
+++ b/internal/container/sort.go
@@ -3,7 +3,6 @@ package container
 import (
 	"bytes"
 	"encoding/json"
-	"fmt"
 	"sort"
 
 	"gopkg.in/yaml.v2"
@@ -139,7 +138,12 @@ func (ms MapSlice) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		buf.WriteString(fmt.Sprintf("%q:", fmt.Sprintf("%v", mi.Key)))
+		k, err := json.Marshal(mi.Key)
+		if err != nil {
+			return nil, err
+		}
+		buf.Write(k)
+		buf.WriteByte(':')
 		buf.Write(b)
 		if i < len(ms)-1 {
 			buf.Write([]byte{','})
-- 
2.43.0


From 5a1c452aa333da06ac529832a10f585c9aa16721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:29 +0000
Subject: [PATCH 07/40] fix: ExtractKey returns escaped paths in a stable order

Flatten does not escape '.' and '~' in keys, so a reference below a key such
as application/vnd.x+json was written back to the wrong place, and it returns
a map, so references were visited in random order.
---
 internal/container/utils.go | 50 ++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 85bc911..07b6029 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -3,6 +3,8 @@ package container
 import (
 	"encoding/json"
 	"fmt"
+	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/Jeffail/gabs/v2"
@@ -11,26 +13,40 @@ import (
 
 // ExtractKey will extract keys from container
 func ExtractKey(c Container, key string) (pp MapSlice, err error) {
-	ff, err := c.Flatten()
-	if err != nil {
-		return nil, err
+	switch c.Data().(type) {
+	case map[string]interface{}, []interface{}:
+	default:
+		return nil, gabs.ErrNotObjOrArray
 	}
-	var ii int
-	for k, v := range ff {
-		x := strings.Split(k, ".")
-		if len(x) == 0 {
-			continue
-		}
-		if x[len(x)-1] != key {
-			continue
+	var walk func(path []string, v interface{})
+	walk = func(path []string, v interface{}) {
+		path = path[:len(path):len(path)]
+		switch x := v.(type) {
+		case map[string]interface{}:
+			keys := make([]string, 0, len(x))
+			for k := range x {
+				keys = append(keys, k)
+			}
+			sort.Strings(keys)
+			for _, k := range keys {
+				walk(append(path, k), x[k])
+			}
+		case []interface{}:
+			for i, e := range x {
+				walk(append(path, strconv.Itoa(i)), e)
+			}
+		default:
+			if path[len(path)-1] != key {
+				return
+			}
+			pp = append(pp, MapItem{
+				Key:   SliceToDotPath(path),
+				Val:   v,
+				Index: len(pp),
+			})
 		}
-		pp = append(pp, MapItem{
-			Key:   k,
-			Val:   v,
-			Index: ii,
-		})
-		ii++
 	}
+	walk(nil, c.Data())
 	return pp, nil
 }
 
-- 
2.43.0


From 342164c8994a48ca8874ac5a3cb9ef440d8e9ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 08/40] fix: Container.Clone reports what it could not copy

It returned an empty container instead, which the resolver went on with.
---
 internal/container/container.go    | 9 ++++++---
 internal/oapi/resolver/resolver.go | 6 +++++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index 0e25014..f0779a7 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -195,9 +195,12 @@ func (c Container) MarshalYAML() ([]byte, error) {
 
 // Clone will clone container. Returning its copy.
 // This is done using Marshal & Unmarhsal of given container.
-func (c Container) Clone() Container {
-	cx, _ := clone(c.c.Data())
-	return wrap(cx)
+func (c Container) Clone() (Container, error) {
+	cx, err := clone(c.c.Data())
+	if err != nil {
+		return Container{}, err
+	}
+	return wrap(cx), nil
 }
 
 // Print will print yaml definition of given container to Printer.
diff --git a/internal/oapi/resolver/resolver.go b/internal/oapi/resolver/resolver.go
index aa43203..1b63a7d 100644
--- a/internal/oapi/resolver/resolver.go
+++ b/internal/oapi/resolver/resolver.go
@@ -40,8 +40,12 @@ func (r Fn) call(p pointer.Pointer) (container.Container, error) {
 
 // Resolve will resolve all references (pointers) in given scheme
 func Resolve(c container.Container, exp Exports, fn Fn) (container.Container, error) {
+	con, err := c.Clone()
+	if err != nil {
+		return zero, err
+	}
 	r := &resolver{
-		con: c.Clone(),
+		con: con,
 		exp: exp,
 		res: fn,
 	}
-- 
2.43.0


From 2a127f938d2bd7641680a8b8713d39735b9395e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 09/40] fix: do not read a document which cannot be encoded as
 null

Container.Bytes answers null when marshalling fails, so a config file holding
.nan was read as an empty config.
---
 internal/oapi/config/config.go | 14 +++++++++++---
 oapi.go                        |  6 +++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/oapi/config/config.go b/internal/oapi/config/config.go
index 0ce1172..fa11601 100644
--- a/internal/oapi/config/config.go
+++ b/internal/oapi/config/config.go
@@ -80,7 +80,7 @@ func ReadYAML(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	return
 }
 
@@ -94,7 +94,7 @@ func ReadJSON(data []byte) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -111,7 +111,7 @@ func ReadFile(file string) (c Config, err error) {
 	if err != nil {
 		return
 	}
-	err = json.Unmarshal(cx.Bytes(), &c)
+	err = decode(cx, &c)
 	if err != nil {
 		return
 	}
@@ -119,6 +119,14 @@ func ReadFile(file string) (c Config, err error) {
 	return
 }
 
+func decode(cx container.Container, c *Config) error {
+	data, err := cx.MarshalJSON()
+	if err != nil {
+		return err
+	}
+	return json.Unmarshal(data, c)
+}
+
 func extends(c container.Container, fp string) (err error) {
 	if !c.ExistsP("extends") {
 		return
diff --git a/oapi.go b/oapi.go
index a756679..6d06691 100644
--- a/oapi.go
+++ b/oapi.go
@@ -37,7 +37,11 @@ type OAPI struct {
 // newOAPI creates new specs from container
 func newOAPI(c container.Container) (x OAPI, err error) {
 	x = OAPI{c: c}
-	err = json.Unmarshal(c.Bytes(), &x.o)
+	data, err := c.MarshalJSON()
+	if err != nil {
+		return
+	}
+	err = json.Unmarshal(data, &x.o)
 	return x, err
 }
 
-- 
2.43.0


From b4462cc4ed12131414a2f0bde67b1e919bfc5f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 10/40] fix: ReadDir treated its directory as a glob pattern

Specification files below a directory such as pkg[1] were never found.
---
 internal/container/container.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index f0779a7..a859004 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -5,7 +5,9 @@ import (
 	"io/ioutil"
 	"path/filepath"
 	"reflect"
+	"runtime"
 	"sort"
+	"strings"
 
 	"github.com/Jeffail/gabs/v2"
 	"github.com/buypal/oapi-go/internal/logging"
@@ -229,7 +231,7 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	}
 
 	for _, s := range patterns {
-		xs, err := filepath.Glob(filepath.Join(dir, s))
+		xs, err := filepath.Glob(filepath.Join(escapeGlob(dir), s))
 		if err != nil {
 			return nil, err
 		}
@@ -251,6 +253,14 @@ func ReadDir(dir string, patterns ...string) (cc Containers, err error) {
 	return
 }
 
+// escapeGlob quotes meta characters of filepath.Glob
+func escapeGlob(dir string) string {
+	if runtime.GOOS == "windows" {
+		return dir // escaping is not supported there
+	}
+	return strings.NewReplacer(`\`, `\\`, `*`, `\*`, `?`, `\?`, `[`, `\[`).Replace(dir)
+}
+
 // sort interface complience with sort.Sort method
 
 func (cc Containers) Len() int           { return len(cc) }
-- 
2.43.0


From 657c1350e8d7345e6db92dd33dc94b440888875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 11/40] fix: Fragment.Replace panicked when n was the length of
 the fragment

---
 internal/pointer/fragment.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 13d854d..0f05685 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -65,7 +65,7 @@ func (p Fragment) Clone() Fragment {
 
 // Replace will replace element in fragment
 func (p Fragment) Replace(n int, element string) (Fragment, error) {
-	if n > len(p) || n < 0 {
+	if n >= len(p) || n < 0 {
 		return Fragment{}, errors.New("n out of range")
 	}
 	x := p.Clone()
-- 
2.43.0


From 14d101eaa9382e7c30bac85f792b7c2a1eff7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 12/40] fix: descendants of a fragment shared its spare
 capacity

Two descendants of one fragment made by NewPointer overwrote each other.
---
 internal/pointer/fragment.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pointer/fragment.go b/internal/pointer/fragment.go
index 0f05685..3d28424 100644
--- a/internal/pointer/fragment.go
+++ b/internal/pointer/fragment.go
@@ -97,7 +97,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 		return dpath, nil
 	}
 
-	return append(p, dpath...), nil
+	return append(p.Clone(), dpath...), nil
 }
 
 // RawDescendant extends the pointer with 1 or more path tokens
@@ -105,7 +105,7 @@ func (p Fragment) Descendant(path string) (Fragment, error) {
 // and assumes the user is directly managing the pointer
 // This allows for much faster pointer management
 func (p Fragment) RawDescendant(path ...string) Fragment {
-	return append(p, path...)
+	return append(p.Clone(), path...)
 }
 
 func unescapeToken(tok string) string {
-- 
2.43.0


From 17ed9f63dee8f632b23d822149e11727eb853c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 13/40] fix: Pointer.Clone dereferenced nil when its url did
 not parse again

---
 internal/pointer/pointer.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index fcf0656..5601e45 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -99,8 +99,7 @@ func (p Pointer) PkgPath() string {
 
 func (p Pointer) Clone() Pointer {
 	f := p.Fragment.Clone()
-	u, _ := url.Parse(p.URL.String())
-	return Pointer{URL: *u, Fragment: f}
+	return Pointer{URL: p.URL, Fragment: f}
 }
 
 func (p Pointer) IsExternal() bool {
-- 
2.43.0


From bc34eb3e5c8c5311cc9c5495e000f0c1a6fdeab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 14/40] fix: escape '%' of a fragment when printing a pointer

The fragment is unescaped by Parse, so a printed pointer with '%' in it was
rejected or read as another pointer.
---
 internal/pointer/pointer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 5601e45..9713b62 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -14,6 +14,7 @@ import (
 	"fmt"
 	"net/url"
 	"strconv"
+	"strings"
 )
 
 const defaultPointerAllocationSize = 32
@@ -90,7 +91,9 @@ func (p *Pointer) MarshalJSON() ([]byte, error) {
 
 func (p Pointer) String() string {
 	p.URL.Fragment = ""
-	return fmt.Sprintf("%s#%s", p.URL.String(), p.Fragment.String())
+	p.URL.RawFragment = ""
+	f := strings.Replace(p.Fragment.String(), "%", "%25", -1)
+	return fmt.Sprintf("%s#%s", p.URL.String(), f)
 }
 
 func (p Pointer) PkgPath() string {
-- 
2.43.0


From 7818b7ec5c108754b3c8fa874103088809bfadbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 15/40] fix: read and write pointers as JSON strings

Go quoting is not JSON quoting: \/ could not be read, \x00 was written.
---
 internal/pointer/pointer.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/pointer/pointer.go b/internal/pointer/pointer.go
index 9713b62..1f0e164 100644
--- a/internal/pointer/pointer.go
+++ b/internal/pointer/pointer.go
@@ -11,9 +11,9 @@
 package pointer
 
 import (
+	"encoding/json"
 	"fmt"
 	"net/url"
-	"strconv"
 	"strings"
 )
 
@@ -72,9 +72,10 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 	if data == nil {
 		return nil
 	}
-	t, err := strconv.Unquote(string(data))
+	var t string
+	err := json.Unmarshal(data, &t)
 	if err != nil {
-		t = string(data)
+		return err
 	}
 	x, err := Parse(t)
 	if err != nil {
@@ -85,8 +86,7 @@ func (p *Pointer) UnmarshalJSON(data []byte) error {
 }
 
 func (p *Pointer) MarshalJSON() ([]byte, error) {
-	x := fmt.Sprintf("%q", p.String())
-	return []byte(x), nil
+	return json.Marshal(p.String())
 }
 
 func (p Pointer) String() string {
-- 
2.43.0


From e4ee4b13dfa564c99b70d0204a2030af1e88be15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 16/40] fix: quote the literal tail of a route pattern

/v1/pets.json also matched /v1/petsXjson.
---
 internal/route/route.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/route/route.go b/internal/route/route.go
index 7b12c59..fe28757 100644
--- a/internal/route/route.go
+++ b/internal/route/route.go
@@ -87,7 +87,7 @@ func Match(pattern, method, path string) (bool, error) {
 		}
 		last = j
 	}
-	pettern := strings.Join(append(parts, pattern[last:]), "")
+	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
 	reg, err := compileCached(pettern)
 	if err != nil {
 		return false, err
-- 
2.43.0


From 60b3091167398ca818da2a97cf3a05a223312147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 17/40] fix: an unknown go reference is an error, not a nil
 dereference

---
 internal/oapi/scan/types/scan.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/scan.go b/internal/oapi/scan/types/scan.go
index 417bdf6..1cc54cd 100644
--- a/internal/oapi/scan/types/scan.go
+++ b/internal/oapi/scan/types/scan.go
@@ -24,7 +24,10 @@ func NewScanner(ptrs pointer.Pointers) *Scanner {
 // Resolve will return new pointer and scheme, new pointer might be returned in cases
 // where original pointer is not fully resolved.
 func (r *Scanner) Resolve(ptr pointer.Pointer) (*spec.Schema, error) {
-	tp, _ := r.points.findType(ptr)
+	tp, ok := r.points.findType(ptr)
+	if !ok {
+		return nil, errors.Errorf("failed to resolve %q", ptr.String())
+	}
 	// pp, ok := r.points.pick(tp)
 	// if !ok {
 	// 	return nil, errors.Errorf("failed to resolve %q", ptr.String())
-- 
2.43.0


From 11bec8f4130ea85eded2cb0a9677a377296e7ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 18/40] fix: walking a type which mentions error panicked

Universe types have no package.
---
 internal/oapi/scan/types/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index faf4a11..6073d8c 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -85,7 +85,7 @@ func walk(r point, t types.Type, p path, m *pointmap) (err error) {
 			return
 		}
 		named, ok := e.t.(*types.Named)
-		if ok {
+		if ok && named.Obj().Pkg() != nil {
 			np := newPoint(named.Obj())
 			err = walk(np, e.t, p, m)
 		}
-- 
2.43.0


From d5d648e2aeb682a2e71f3623b886f22a2279f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 19/40] fix: keep the format of a field type and the required
 mark of a struct field

An absent format option wiped int32, double or uuid, and required was ignored
for fields rendered as references.
---
 internal/oapi/scan/types/types.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/oapi/scan/types/types.go b/internal/oapi/scan/types/types.go
index 6073d8c..643a4cb 100644
--- a/internal/oapi/scan/types/types.go
+++ b/internal/oapi/scan/types/types.go
@@ -217,6 +217,10 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 
 		s.Properties[name] = pschema
 
+		if x.tag.Required {
+			s.Required = append(s.Required, name)
+		}
+
 		if pschema.Ref != nil {
 			continue
 		}
@@ -224,15 +228,13 @@ func struct2schema(t *types.Struct, m pointmap, tp path) (s *spec.Schema, err er
 		pschema.Deprecated = x.tag.Deprecated
 		pschema.ReadOnly = x.tag.ReadOnly
 		pschema.WriteOnly = x.tag.WriteOnly
-		pschema.Format = x.tag.Format
+		if len(x.tag.Format) > 0 {
+			pschema.Format = x.tag.Format
+		}
 
 		if x.tag.Nullable != nil {
 			pschema.Nullable = *x.tag.Nullable
 		}
-
-		if x.tag.Required {
-			s.Required = append(s.Required, name)
-		}
 	}
 
 	return
-- 
2.43.0


From 18dce74448b66678487c687eb1b6f3029fe9cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 20/40] fix: pick the same name for a type on every run

Names of equal length were kept in the order in which the pointers, a map,
were visited.
---
 internal/oapi/scan/types/point.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/scan/types/point.go b/internal/oapi/scan/types/point.go
index 74579ff..b5aa868 100644
--- a/internal/oapi/scan/types/point.go
+++ b/internal/oapi/scan/types/point.go
@@ -67,7 +67,10 @@ func (s points) Swap(i, j int) {
 
 // Less is part of sort.Interface. It is implemented by calling the "by" closure in the sorter.
 func (s points) Less(i, j int) bool {
-	return s[i].Fragment.Len() < s[j].Fragment.Len()
+	if s[i].Fragment.Len() != s[j].Fragment.Len() {
+		return s[i].Fragment.Len() < s[j].Fragment.Len()
+	}
+	return s[i].String() < s[j].String()
 }
 
 func (s points) filter(compare func(p1 point) bool) (pp points) {
-- 
2.43.0


From 69fec331fee1ab73b94d1f8825945ab81f31c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 21/40] fix: the mulof option was stored as an exclusive
 minimum

---
 tag/tag.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tag/tag.go b/tag/tag.go
index af4b782..1fa3b36 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -89,7 +89,7 @@ func parseOAPITag(tags *structtag.Tags, meta *Tag) (err error) {
 		parseTagFloatPtr(tag, "min", &meta.Min),
 		parseTagFloatPtr(tag, "emax", &meta.EMax),
 		parseTagFloatPtr(tag, "emin", &meta.EMin),
-		parseTagFloatPtr(tag, "mulof", &meta.EMin),
+		parseTagFloatPtr(tag, "mulof", &meta.MulOf),
 	}
 	for _, err := range errs {
 		if err != nil {
-- 
2.43.0


From 56327d8390377c3b7f39525e45ee6cb960073451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 22/40] fix: report malformed boolean tag options, leave absent
 ones alone

The error of ParseBool was dropped, and an oapi tag without omitempty cleared
the one of the json tag.
---
 tag/tag.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tag/tag.go b/tag/tag.go
index 1fa3b36..fb9e5cf 100644
--- a/tag/tag.go
+++ b/tag/tag.go
@@ -195,12 +195,15 @@ func parseTagString(m *tagparser.Tag, tag string, val *string) error {
 
 func parseTagBool(m *tagparser.Tag, tag string, val *bool) (err error) {
 	x, ok := m.Options[tag]
+	if !ok {
+		return nil
+	}
 	if x == "" {
-		*val = ok
+		*val = true
 	} else {
 		*val, err = strconv.ParseBool(x)
 	}
-	return nil
+	return err
 }
 
 func parseTagBoolPtr(m *tagparser.Tag, tag string, val **bool) (err error) {
-- 
2.43.0


From 661b5cc9db33f5ddc6ae518025f689a81aa7497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 23/40] fix: report unreadable schema commands and name a
 component after its type

The error of a malformed reference was dropped, and a command with only a
reference exported a component named by the whole url.
---
 internal/oapi/scan/cmds/schema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/oapi/scan/cmds/schema.go b/internal/oapi/scan/cmds/schema.go
index 114083f..4cdab9a 100644
--- a/internal/oapi/scan/cmds/schema.go
+++ b/internal/oapi/scan/cmds/schema.go
@@ -43,6 +43,12 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(name)
+		if err != nil {
+			return nil, err
+		}
+		if last, ok := sx.Ptr.Fragment.Last(); ok {
+			sx.Name = last
+		}
 		return sx, nil
 	case 2:
 		if invalid(nok, name) {
@@ -53,6 +59,9 @@ func NewCmdSchema(cmd CmdBase) (s Commander, err error) {
 		}
 		sx.Name = name
 		sx.Ptr, err = makePtr(ptr)
+		if err != nil {
+			return nil, err
+		}
 		return sx, nil
 	default:
 		return nil, errors.New("invalid number of arguments")
-- 
2.43.0


From 93bbef2285cf21a15e6c2b1b6f0ad42adeeae089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 24/40] fix: two exports must not share a component name

The second schema silently replaced the first one.
---
 internal/oapi/scan/cmds/scan.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/scan/cmds/scan.go b/internal/oapi/scan/cmds/scan.go
index c3b1b2c..15e9a64 100644
--- a/internal/oapi/scan/cmds/scan.go
+++ b/internal/oapi/scan/cmds/scan.go
@@ -2,6 +2,7 @@ package cmds
 
 import (
 	"go/ast"
+	"sort"
 
 	"github.com/buypal/oapi-go/internal/oapi/resolver"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
@@ -49,17 +50,24 @@ func (r *Scanner) Scan(pkg *packages.Package) (err error) {
 // of resolver.Exports.
 func (r *Scanner) ExportedComponents() (exports resolver.Exports, err error) {
 	var cc List
-	for _, cmd := range r.Commands {
-		cc = append(cc, cmd...)
+	var pkgs []string
+	for pkg := range r.Commands {
+		pkgs = append(pkgs, pkg)
+	}
+	sort.Strings(pkgs)
+	for _, pkg := range pkgs {
+		cc = append(cc, r.Commands[pkg]...)
 	}
 
+	names := make(map[string]bool)
 	for _, cmd := range cc {
 		switch x := cmd.(type) {
 		case CmdSchema:
-			if _, ok := exports.Get(x.Ptr); ok {
+			if _, ok := exports.Get(x.Ptr); ok || names[x.Name] {
 				err = errors.Errorf("schema of type %q already registered", x.Name)
 				return
 			}
+			names[x.Name] = true
 			entity := resolver.Entity{
 				Entity: spec.SchemaKind,
 				Name:   x.Name,
-- 
2.43.0


From 430aac2e2c74749e834cec60aca43eabd33ed3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 25/40] fix: check for a nil package before looking at it

---
 internal/pkgutil/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/util.go b/internal/pkgutil/util.go
index 56eb6d9..e41f124 100644
--- a/internal/pkgutil/util.go
+++ b/internal/pkgutil/util.go
@@ -33,7 +33,7 @@ func Scan(pkgs []*packages.Package, fn Scanner) (err error) {
 	seen := make(map[*packages.Package]bool)
 	var visit func(*packages.Package)
 	visit = func(pkg *packages.Package) {
-		if seen[pkg] || IsStdLibPkg(pkg) || pkg == nil {
+		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
 			return
 		}
 		seen[pkg] = true
-- 
2.43.0


From 9d5cc964fc9aea1bd41f47120560c01e5ceb8dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 26/40] fix: packages of a GOPATH live below its src directory

---
 internal/pkgutil/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pkgutil/info.go b/internal/pkgutil/info.go
index 85e333b..23731af 100644
--- a/internal/pkgutil/info.go
+++ b/internal/pkgutil/info.go
@@ -20,7 +20,7 @@ func getGoPath() string {
 
 func getPkgPath(pkg *packages.Package) (string, bool) {
 	if pkg.Module == nil {
-		p := filepath.Join(getGoPath(), pkg.PkgPath)
+		p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
 		if _, err := os.Stat(p); os.IsNotExist(err) {
 			return p, false
 		}
-- 
2.43.0


From 941443b47ce95452009f446aaa29b47c770fffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 27/40] fix: keep servers, security and tags when merging with
 the root document

Only objects were merged, so every list section was replaced by {}.
---
 internal/oapi/oapi.go | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 9ed7df7..18ad116 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -120,30 +120,27 @@ func MergeWithRoot(root spec.OpenAPI, c container.Container) (err error) {
 		{merge: container.MergeDefault, key: "servers"},
 		{merge: container.MergeDefault, key: "tags"},
 	} {
-		z := c.Path(x.key)
-		y := r.Path(x.key)
-
-		if z.IsNil() && y.IsNil() {
-			continue
-		}
-
 		s := container.New()
 
-		err := s.Merge(z, x.merge)
-		if err != nil {
-			return err
-		}
+		for _, y := range []container.Container{c.Path(x.key), r.Path(x.key)} {
+			if y.IsNil() {
+				continue
+			}
 
-		err = s.Merge(y, x.merge)
-		if err != nil {
-			return err
-		}
+			p, err := container.Make(map[string]interface{}{
+				x.key: y.Data(),
+			})
+			if err != nil {
+				return err
+			}
 
-		p, _ := container.Make(map[string]interface{}{
-			x.key: s.Data(),
-		})
+			err = s.Merge(p, x.merge)
+			if err != nil {
+				return err
+			}
+		}
 
-		err = c.Merge(p, container.MergeOverride)
+		err := c.Merge(s, container.MergeOverride)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 87a9f5961be8b831e5db6f3f0a2f6ef3ca0908b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 28/40] fix: apply default operations in a fixed order

Where two patterns matched one operation, the random map order decided which
default it got.
---
 internal/oapi/oapi.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index 18ad116..d03771d 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -1,6 +1,8 @@
 package oapi
 
 import (
+	"sort"
+
 	"github.com/buypal/oapi-go/internal/container"
 	"github.com/buypal/oapi-go/internal/oapi/spec"
 	"github.com/buypal/oapi-go/internal/route"
@@ -69,7 +71,15 @@ func SetPathsDefaults(cnt container.Container, defops map[string]spec.Operation)
 		return
 	}
 
-	for pattern, override := range defops {
+	var patterns []string
+	for pattern := range defops {
+		patterns = append(patterns, pattern)
+	}
+	sort.Strings(patterns)
+
+	for _, pattern := range patterns {
+		override := defops[pattern]
+
 		var ff FlattenPaths
 		ff, err = paths.Match(pattern)
 		if err != nil {
-- 
2.43.0


From 7e6b8d1da2699aa7845cb8d7de44acd30731fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 29/40] fix: only operations of a path item receive default
 operations

parameters, servers, summary and extensions were treated as methods.
---
 internal/oapi/oapi.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/oapi/oapi.go b/internal/oapi/oapi.go
index d03771d..f4927a6 100644
--- a/internal/oapi/oapi.go
+++ b/internal/oapi/oapi.go
@@ -35,6 +35,15 @@ func (fp FlattenPaths) Match(pattern string) (xx FlattenPaths, err error) {
 	return
 }
 
+// isMethod reports if key of path item holds an operation.
+func isMethod(key string) bool {
+	switch key {
+	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
+		return true
+	}
+	return false
+}
+
 // Paths will parse paths in oapi container and return array of paths.
 func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 	paths, err := cnt.Path("paths").ChildrenMap()
@@ -49,6 +58,9 @@ func Paths(cnt container.Container) (ff FlattenPaths, err error) {
 			return
 		}
 		for m, obj := range mx {
+			if !isMethod(m) {
+				continue
+			}
 			ff = append(ff, FlattenPath{
 				Method:    m,
 				Path:      path,
-- 
2.43.0


From 1c9daefdc7cb129e89d6021dd7d0c6185faa0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 30/40] fix: escape component names in paths and references

A name with '.', '/' or '~' was stored under one key and referenced by another.
---
 internal/oapi/resolver/utils.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index f95e3bc..dcd4aa3 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -18,13 +18,12 @@ type Entity struct {
 
 // Path returns dot path.
 func (pe Entity) Path() string {
-	return fmt.Sprintf("%s.%s", pe.Entity.Path(), pe.Name)
+	return fmt.Sprintf("%s.%s", pe.Entity.Path(), container.SliceToDotPath([]string{pe.Name}))
 }
 
 // Fragment return fragment path
 func (pe Entity) Fragment() pointer.Fragment {
-	f, _ := pe.Entity.Fragment().Descendant(pe.Name)
-	return f
+	return pe.Entity.Fragment().RawDescendant(pe.Name)
 }
 
 // IsScheme reports if entitiy is scheme
-- 
2.43.0


From 2a10df6b3a93289d28b0204c18986a57869c2be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 31/40] fix: generated Go file did not compile when the
 document held a backquote

---
 temp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/temp.go b/temp.go
index a38f436..93bc33a 100644
--- a/temp.go
+++ b/temp.go
@@ -2,18 +2,27 @@ package oapi
 
 import (
 	"bytes"
+	"strconv"
 	"text/template"
 )
 
-var tpl = template.Must(template.New("pkg").Parse(
+var tpl = template.Must(template.New("pkg").Funcs(template.FuncMap{"literal": literal}).Parse(
 	`// Code generated by oapi-go, DO NOT EDIT.
 package {{.PkgName}}
 
 // OpenAPIJsonSpec is json generated specification produced 
 // by oapi-go tool.
-const OpenAPIJsonSpec = ` + "`" + `{{.OpenAPIJson}}` + "`" + `
+const OpenAPIJsonSpec = {{literal .OpenAPIJson}}
 `))
 
+// literal returns go string literal of given string.
+func literal(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
+
 type tpldata struct {
 	PkgName     string
 	OpenAPIJson string
-- 
2.43.0


From 81d14629a57aad14462aad8fa60795613b719b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 32/40] fix: WithLog(nil) set a nil logger

---
 oapi.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oapi.go b/oapi.go
index 6d06691..52ffcaa 100644
--- a/oapi.go
+++ b/oapi.go
@@ -82,7 +82,7 @@ func WithDir(dir string) Option {
 func WithLog(l logging.Printer) Option {
 	return func(r *Options) error {
 		if l == nil {
-			r.log = logging.Void()
+			l = logging.Void()
 		}
 		r.log = l
 		return nil
-- 
2.43.0


From 58d0236cbf8e4f73dbbae54087f4fe5d189e70cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 33/40] fix: resolve references of default operations, the root
 document and overrides

Default operations were added after the references had been resolved, and
references which only the configuration mentions were never looked up in the
scanned packages.
---
 oapi.go | 52 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/oapi.go b/oapi.go
index 52ffcaa..6518f9b 100644
--- a/oapi.go
+++ b/oapi.go
@@ -168,18 +168,33 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
+	err = oapi.MergeWithRoot(opts.root, c)
+	if err != nil {
+		return
+	}
+
+	err = oapi.SetPathsDefaults(c, opts.defops)
+	if err != nil {
+		return
+	}
+
 	pp := make(pointer.Pointers)
 	pp = pp.Merge(cmdsScanner.Commands.Pointers())
 	pp = pp.Merge(specsScanner.Pointers)
-
-	// collect and handle types
-	tps := types.NewScanner(pp)
-	err = pkgutil.Scan(pkgs, tps)
+	pp, err = collectPointers(pp, c)
 	if err != nil {
 		return
 	}
+	for _, ovrd := range opts.override {
+		pp, err = collectPointers(pp, ovrd)
+		if err != nil {
+			return
+		}
+	}
 
-	err = oapi.MergeWithRoot(opts.root, c)
+	// collect and handle types
+	tps := types.NewScanner(pp)
+	err = pkgutil.Scan(pkgs, tps)
 	if err != nil {
 		return
 	}
@@ -200,12 +215,31 @@ func Scan(ctx context.Context, options ...Option) (s OAPI, err error) {
 		return
 	}
 
-	err = oapi.SetPathsDefaults(cnt, opts.defops)
+	return newOAPI(cnt)
+}
+
+// collectPointers adds all the references which v holds to given pointers.
+func collectPointers(pp pointer.Pointers, v interface{}) (pointer.Pointers, error) {
+	c, err := container.Make(v)
 	if err != nil {
-		return
+		return nil, err
 	}
-
-	return newOAPI(cnt)
+	refs, err := container.ExtractKey(c, "$ref")
+	if err != nil {
+		return nil, err
+	}
+	for _, ref := range refs {
+		s, ok := ref.Val.(string)
+		if !ok {
+			continue
+		}
+		p, err := pointer.Parse(s)
+		if err != nil {
+			return nil, err
+		}
+		pp = pp.Merge(pointer.NewPointers([]pointer.Pointer{p}))
+	}
+	return pp, nil
 }
 
 // Format will format given specs into given format.
-- 
2.43.0


From 665d73bcd9ab3a725d2901ce4183a2a0c5e6538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 34/40] fix: honour stderr as output and an output flag naming
 a stream

stderr was never used, and --output=stdout did not override the output of the
config file.
---
 cmd/oapi/config.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/cmd/oapi/config.go b/cmd/oapi/config.go
index ef1e76e..12a13ab 100644
--- a/cmd/oapi/config.go
+++ b/cmd/oapi/config.go
@@ -62,7 +62,10 @@ func (ff Config) logrus() *logrus.Logger {
 }
 
 func (ff Config) full() (cfg config.Config, err error) {
-	wd, _ := os.Getwd()
+	wd, err := os.Getwd()
+	if err != nil {
+		return
+	}
 
 	if len(ff.Config) > 0 {
 		// path
@@ -96,18 +99,10 @@ func (ff Config) full() (cfg config.Config, err error) {
 	// output destination
 	output := "stdout"
 	if len(cfg.Output) > 0 {
-		switch cfg.Output {
-		case "stderr", "stdout":
-		default:
-			output = toAbsPath(cfg.Output, cfg.Dir)
-		}
+		output = toOutput(cfg.Output, cfg.Dir)
 	}
 	if len(ff.Output) > 0 {
-		switch ff.Output {
-		case "stderr", "stdout":
-		default:
-			output = toAbsPath(ff.Output, wd)
-		}
+		output = toOutput(ff.Output, wd)
 	}
 	cfg.Output = output
 
@@ -118,6 +113,14 @@ func (ff Config) full() (cfg config.Config, err error) {
 	return
 }
 
+func toOutput(output string, fallback string) string {
+	switch output {
+	case "stderr", "stdout":
+		return output
+	}
+	return toAbsPath(output, fallback)
+}
+
 func toAbsPath(path string, fallback string) string {
 	if filepath.IsAbs(path) {
 		return path
-- 
2.43.0


From 67566f45384aafec91c22459f2dc29c68554c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 35/40] fix: the output file did not have to exist before

Removing it failed when there was none.
---
 cmd/oapi/main.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index 5f28553..c239e76 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -67,11 +67,7 @@ func main() {
 	case "stderr":
 		w = os.Stderr
 	default:
-		err = os.Remove(config.Output)
-		if err != nil {
-			logging.Fatal(log, err.Error())
-		}
-		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE, 0755)
+		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 		if err != nil {
 			logging.Fatal(log, err.Error())
 		}
-- 
2.43.0


From d65cfd41cc071975c100d2e8feb19ccb13f5a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 36/40] fix: the command line tool ends with status 1 when it
 fails

Logging at fatal level does not end the program: it went on, wrote a broken
document over the output file and ended with status 0.
---
 cmd/oapi/main.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/oapi/main.go b/cmd/oapi/main.go
index c239e76..ed241aa 100644
--- a/cmd/oapi/main.go
+++ b/cmd/oapi/main.go
@@ -13,6 +13,12 @@ import (
 	"github.com/sirupsen/logrus"
 )
 
+// fatal logs given message and ends the program
+func fatal(log logging.Printer, msg string, args ...interface{}) {
+	logging.Fatal(log, msg, args...)
+	os.Exit(1)
+}
+
 func main() {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
@@ -40,7 +46,7 @@ func main() {
 
 	config, err := cfg.full()
 	if err != nil {
-		logging.Fatal(log, "err config: %s", err.Error())
+		fatal(log, "err config: %s", err.Error())
 	}
 
 	go func() {
@@ -51,12 +57,12 @@ func main() {
 
 	spec, err := scan(ctx, log, config)
 	if err != nil {
-		logging.Fatal(log, "err during scan: %s", err.Error())
+		fatal(log, "err during scan: %s", err.Error())
 	}
 
 	data, err := oapi.Format(config.Format, spec)
 	if err != nil {
-		logging.Fatal(log, "err during format: %s", err.Error())
+		fatal(log, "err during format: %s", err.Error())
 	}
 
 	var w io.Writer
@@ -69,12 +75,12 @@ func main() {
 	default:
 		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 		if err != nil {
-			logging.Fatal(log, err.Error())
+			fatal(log, "%s", err.Error())
 		}
 	}
 
 	_, err = io.Copy(w, bytes.NewBuffer(data))
 	if err != nil {
-		logging.Fatal(log, err.Error())
+		fatal(log, "%s", err.Error())
 	}
 }
-- 
2.43.0


From 25a36e95462fe714349dd292acdde08dafe88345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:36 +0000
Subject: [PATCH 37/40] fix: references which are the whole value of a resolved
 entity are replaced

---
 internal/container/container.go | 11 +++++++++++
 internal/oapi/resolver/utils.go |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/internal/container/container.go b/internal/container/container.go
index a859004..adf455e 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -175,6 +175,17 @@ func (c Container) SetP(path string, value interface{}) (err error) {
 	return
 }
 
+// Replace sets the value of the container itself. Same as SetP it will clone
+// the source value.
+func (c Container) Replace(value interface{}) (err error) {
+	val, err := clone(value)
+	if err != nil {
+		return
+	}
+	_, err = c.c.Set(val)
+	return
+}
+
 // Bytes marshals an element to a JSON []byte blob.
 func (c Container) Bytes() []byte {
 	return c.c.Bytes()
diff --git a/internal/oapi/resolver/utils.go b/internal/oapi/resolver/utils.go
index dcd4aa3..28dc778 100644
--- a/internal/oapi/resolver/utils.go
+++ b/internal/oapi/resolver/utils.go
@@ -50,6 +50,9 @@ func ReplacePtr(cx container.Container, key string, value interface{}) (err erro
 	if !ok {
 		return errors.New("not a pointer")
 	}
+	if key == "$ref" { // whole container is a pointer
+		return cx.Replace(value)
+	}
 	err = cx.SetP(path, value)
 	return
 }
-- 
2.43.0


From df026d886c89e6206f576a98819965a2e1dfb8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:17 +0000
Subject: [PATCH 38/40] fix: documents of several packages can be merged

Every specification has to have an openapi version, so merging two of them
always failed with a collision of equal values.
---
 internal/container/container.go |  2 +-
 internal/container/merge.go     | 17 ++++++++++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/internal/container/container.go b/internal/container/container.go
index adf455e..812ec7a 100644
--- a/internal/container/container.go
+++ b/internal/container/container.go
@@ -290,7 +290,7 @@ func (cc Containers) Sort() Containers {
 func (cc Containers) Merge(fn Merger) (Container, error) {
 	c := New()
 	for _, x := range cc {
-		err := c.Merge(x, fn)
+		err := c.Merge(x, unlessSame(fn))
 		if err != nil {
 			return Container{}, err
 		}
diff --git a/internal/container/merge.go b/internal/container/merge.go
index b9b73c4..d14096f 100644
--- a/internal/container/merge.go
+++ b/internal/container/merge.go
@@ -1,6 +1,10 @@
 package container
 
-import "github.com/pkg/errors"
+import (
+	"reflect"
+
+	"github.com/pkg/errors"
+)
 
 // Merger is function signature allowing merging
 type Merger func(destination, source interface{}) (interface{}, error)
@@ -20,6 +24,17 @@ func MergeOverride(dest, source interface{}) (interface{}, error) {
 	return source, nil
 }
 
+// unlessSame keeps values which are the same in both documents, such as the
+// openapi version which each document has, and leaves others to the merger.
+func unlessSame(fn Merger) Merger {
+	return func(dest, source interface{}) (interface{}, error) {
+		if reflect.DeepEqual(dest, source) {
+			return dest, nil
+		}
+		return fn(dest, source)
+	}
+}
+
 // Merge merges two objects using a provided function to resolve collisions.
 //
 // The collision function receives two interface{} arguments, destination (the
-- 
2.43.0


From df80a773ddc5d0ff7b173f02e1a0d2b0ce08247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:11 +0000
Subject: [PATCH 39/40] fix: keys of one text but several types are read in a
 fixed order

A YAML object with the keys 1 and "1" kept either value, by the random order
of its map.
---
 internal/container/utils.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 07b6029..1f63d6a 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -114,7 +114,16 @@ func mmap(v interface{}) interface{} {
 	switch x := v.(type) {
 	case map[interface{}]interface{}:
 		m := map[string]interface{}{}
-		for k, v2 := range x {
+		var keys []interface{}
+		for k := range x {
+			keys = append(keys, k)
+		}
+		// keys of several types may have the same text, as 1 and "1"
+		sort.Slice(keys, func(i, j int) bool {
+			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
+		})
+		for _, k := range keys {
+			v2 := x[k]
 			switch k2 := k.(type) {
 			case string: // Fast check if it's already a string
 				m[k2] = mmap(v2)
-- 
2.43.0


From 6d5677e5e9d3c1aaa464705c34c48b3ee02209cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:16 +0000
Subject: [PATCH 40/40] fix: converting the keys of a document leaves the given
 one alone

---
 internal/container/utils.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/container/utils.go b/internal/container/utils.go
index 1f63d6a..a734a81 100644
--- a/internal/container/utils.go
+++ b/internal/container/utils.go
@@ -110,6 +110,7 @@ func wrap(c interface{}) Container {
 //
 // When converting map[interface{}]interface{} to map[string]interface{},
 // fmt.Sprint() with default formatting is used to convert the key to a string key.
+// The given object itself is left as it is.
 func mmap(v interface{}) interface{} {
 	switch x := v.(type) {
 	case map[interface{}]interface{}:
@@ -134,14 +135,24 @@ func mmap(v interface{}) interface{} {
 		v = m
 
 	case []interface{}:
+		if x == nil {
+			break
+		}
+		s := make([]interface{}, len(x))
 		for i, v2 := range x {
-			x[i] = mmap(v2)
+			s[i] = mmap(v2)
 		}
+		v = s
 
 	case map[string]interface{}:
+		if x == nil {
+			break
+		}
+		m := make(map[string]interface{}, len(x))
 		for k, v2 := range x {
-			x[k] = mmap(v2)
+			m[k] = mmap(v2)
 		}
+		v = m
 	}
 
 	return v
-- 
2.43.0

