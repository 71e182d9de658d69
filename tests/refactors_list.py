# name, (file, old, new, old, new, ...), ...
ref("route-helper", ("internal/route/route.go",
'''	var fm string
	for _, m := range methods {
		met := strings.ToLower(m)
		if strings.HasPrefix(strings.ToLower(pattern), met+":") {
			fm = met
			pattern = pattern[len(m)+1:]
			break
		}
	}
	if len(fm) > 0 && len(method) > 0 && !strings.EqualFold(fm, method) {
		return false, nil
	}
	var parts []string
	var last int
	for _, x := range variables.FindAllStringIndex(pattern, -1) {
		if len(x) != 2 {
			continue
		}
		i, j := x[0], x[1]
		parts = append(parts, regexp.QuoteMeta(pattern[last:i]))
		switch {
		case pattern[i] == '{' && pattern[j-1] == '}':
			parts = append(parts, "([^/]+)")
		case pattern[i] == '*':
			parts = append(parts, "(.*)")
		default:
			parts = append(parts, pattern[i:j])
		}
		last = j
	}
	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
	reg, err := compileCached(pettern)
	if err != nil {
		return false, err
	}
	return reg.MatchString(path), nil
}
''', '''	want, rest := splitMethod(pattern)
	if want != "" && method != "" && !strings.EqualFold(want, method) {
		return false, nil
	}
	reg, err := compileCached(toRegexp(rest))
	if err != nil {
		return false, err
	}
	return reg.MatchString(path), nil
}

// splitMethod splits pattern into its method, if it has one, and its path.
func splitMethod(pattern string) (method, path string) {
	lower := strings.ToLower(pattern)
	for _, m := range methods {
		m = strings.ToLower(m)
		if strings.HasPrefix(lower, m+":") {
			return m, pattern[len(m)+1:]
		}
	}
	return "", pattern
}

// toRegexp writes path of a pattern as regular expression.
func toRegexp(pattern string) string {
	var sb strings.Builder
	last := 0
	for _, x := range variables.FindAllStringIndex(pattern, -1) {
		i, j := x[0], x[1]
		sb.WriteString(regexp.QuoteMeta(pattern[last:i]))
		if pattern[i] == '*' {
			sb.WriteString("(.*)")
		} else {
			sb.WriteString("([^/]+)")
		}
		last = j
	}
	sb.WriteString(regexp.QuoteMeta(pattern[last:]))
	return sb.String()
}
'''))
ref("route-cache", ("internal/route/route.go",
'''	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
''','''	relock.Lock()
	defer relock.Unlock()

	if regex, ok := regexen[pattern]; ok {
		return regex, nil
	}
	regex, err := regexp.Compile("^" + pattern + "$")
	if err != nil {
		return nil, err
	}
	regexen[pattern] = regex
	return regex, nil
'''))
ref("route-nodefer", ("internal/route/route.go",
'''	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
''','''	relock.Lock()
	regex, ok := regexen[pattern]
	relock.Unlock()
	if ok {
		return regex, nil
	}
	regex, err := regexp.Compile("^" + pattern + "$")
	if err != nil {
		return nil, err
	}
	relock.Lock()
	regexen[pattern] = regex
	relock.Unlock()
	return regex, nil
'''))
ref("route-rwmutex", ("internal/route/route.go", "relock sync.Mutex", "relock sync.RWMutex",
'''	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''','''	if regex := cached(pattern); regex != nil {
		return regex, nil
	}
	regex, err := regexp.Compile("^" + pattern + "$")
	if err == nil {
		store(pattern, regex)
	}
	return regex, err
}

func cached(pattern string) *regexp.Regexp {
	relock.RLock()
	defer relock.RUnlock()
	return regexen[pattern]
}

func store(pattern string, regex *regexp.Regexp) {
	relock.Lock()
	regexen[pattern] = regex
	relock.Unlock()
}
'''))
ref("route-struct-cache", ("internal/route/route.go", "	regexen   = make(map[string]*regexp.Regexp)\n", "	regexen   = cache{m: make(map[string]*regexp.Regexp)}\n",
"\n	relock sync.Mutex\n", "",
'''func compileCached(pattern string) (*regexp.Regexp, error) {
	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''','''type cache struct {
	sync.Mutex
	m map[string]*regexp.Regexp
}

func (c *cache) get(pattern string) (*regexp.Regexp, error) {
	c.Lock()
	defer c.Unlock()

	if regex := c.m[pattern]; regex != nil {
		return regex, nil
	}
	regex, err := regexp.Compile("^" + pattern + "$")
	if err != nil {
		return nil, err
	}
	c.m[pattern] = regex
	return regex, nil
}

func compileCached(pattern string) (*regexp.Regexp, error) {
	return regexen.get(pattern)
}
'''))
ref("fragment-loops", ("internal/pointer/fragment.go",
'''	for _, tok := range p {
		str += "/" + escapeToken(tok)
	}
	return
''','''	var sb strings.Builder
	for i := 0; i < len(p); i++ {
		sb.WriteByte('/')
		sb.WriteString(escapeToken(p[i]))
	}
	return sb.String()
''','''	toks := strings.Split(str, separator)
	for i, t := range toks {
		toks[i] = unescapeToken(t)
	}
	return toks, nil
''','''	var toks []string
	for _, t := range strings.Split(str, separator) {
		toks = append(toks, unescapeToken(t))
	}
	return toks, nil
'''))
ref("fragment-replacer", ("internal/pointer/fragment.go",
'''	tok = strings.Replace(tok, tilde, escapedTilde, -1)
	return strings.Replace(tok, separator, escapedSeparator, -1)
''','''	return escaper.Replace(tok)
''','''func unescapeToken''','''var escaper = strings.NewReplacer(tilde, escapedTilde, separator, escapedSeparator)

func unescapeToken''','''	tok = strings.Replace(tok, escapedSeparator, separator, -1)
	return strings.Replace(tok, escapedTilde, tilde, -1)
''','''	return strings.ReplaceAll(strings.ReplaceAll(tok, escapedSeparator, separator), escapedTilde, tilde)
'''))
ref("pointer-parse", ("internal/pointer/pointer.go",
'''	switch {
	case len(str) == 0:
		return Pointer{}, nil
	case str == "#":
		return Pointer{}, nil
	}

	var u *url.URL
	u, err = url.Parse(str)
	if err != nil {
		return
	}
	p.Fragment, err = NewFragment(u.Fragment)
	p.URL = *u
	return
''','''	if str == "" || str == "#" {
		return Pointer{}, nil
	}

	u, err := url.Parse(str)
	if err != nil {
		return Pointer{}, err
	}
	fragment, err := NewFragment(u.Fragment)
	return Pointer{URL: *u, Fragment: fragment}, err
''','''	p.URL.Fragment = ""
	p.URL.RawFragment = ""
	f := strings.Replace(p.Fragment.String(), "%", "%25", -1)
	return fmt.Sprintf("%s#%s", p.URL.String(), f)
''','''	u := p.URL
	u.Fragment, u.RawFragment = "", ""
	return u.String() + "#" + strings.ReplaceAll(p.Fragment.String(), "%", "%25")
'''))
ref("extractkey-methods", ("internal/container/utils.go",
'''	var walk func(path []string, v interface{})
	walk = func(path []string, v interface{}) {
		path = path[:len(path):len(path)]
		switch x := v.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(append(path, k), x[k])
			}
		case []interface{}:
			for i, e := range x {
				walk(append(path, strconv.Itoa(i)), e)
			}
		default:
			if path[len(path)-1] != key {
				return
			}
			pp = append(pp, MapItem{
				Key:   SliceToDotPath(path),
				Val:   v,
				Index: len(pp),
			})
		}
	}
	walk(nil, c.Data())
	return pp, nil
}
''','''	return collectKey(nil, nil, c.Data(), key), nil
}

func sortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func child(path []string, key string) []string {
	p := make([]string, 0, len(path)+1)
	p = append(p, path...)
	return append(p, key)
}

func collectKey(pp MapSlice, path []string, v interface{}, key string) MapSlice {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range sortedKeys(x) {
			pp = collectKey(pp, child(path, k), x[k], key)
		}
	case []interface{}:
		for i := range x {
			pp = collectKey(pp, child(path, strconv.Itoa(i)), x[i], key)
		}
	default:
		if path[len(path)-1] == key {
			pp = append(pp, MapItem{Key: SliceToDotPath(path), Val: v, Index: len(pp)})
		}
	}
	return pp
}
'''))
ref("container-utils", ("internal/container/utils.go",
'''	hierarchy := make([]string, len(path))
	for i, v := range path {
		v = strings.Replace(v, "~", "~0", -1)
		v = strings.Replace(v, ".", "~1", -1)
		hierarchy[i] = v
	}
	return strings.Join(hierarchy, ".")
''','''	hierarchy := make([]string, 0, len(path))
	for _, v := range path {
		hierarchy = append(hierarchy, escapeDot(v))
	}
	return strings.Join(hierarchy, ".")
''','''// clone will clone''','''func escapeDot(v string) string {
	v = strings.ReplaceAll(v, "~", "~0")
	return strings.ReplaceAll(v, ".", "~1")
}

// clone will clone''','''	if x, ok := cast(c); ok {
		return x
	}
	return Container{
		c: gabs.Wrap(c),
	}
''','''	x, ok := cast(c)
	if !ok {
		x = Container{c: gabs.Wrap(c)}
	}
	return x
''','''	if x, ok := c.(Container); ok {
		return x, true
	}
	if x, ok := c.(*Container); ok && x != nil {
		return *x, true
	}
	return Container{}, false
''','''	switch x := c.(type) {
	case Container:
		return x, true
	case *Container:
		if x != nil {
			return *x, true
		}
	}
	return Container{}, false
'''))
ref("container-reads", ("internal/container/container.go",
'''	ext := filepath.Ext(file)
	switch ext {
	case ".yaml", ".yml":
		c, err = ReadYAML(data)
	case ".json":
		c, err = ReadJSON(data)
	default:
		err = errors.Errorf("failed to recognize extension %q for unmarshal", ext)
	}
	if err != nil {
		return
	}
	c.path = file
	return
''','''	read, err := decoder(filepath.Ext(file))
	if err != nil {
		return Container{}, err
	}
	c, err = read(data)
	if err != nil {
		return Container{}, err
	}
	c.path = file
	return c, nil
''','''// Flatten a JSON''','''func decoder(ext string) (func([]byte) (Container, error), error) {
	if ext == ".yaml" || ext == ".yml" {
		return ReadYAML, nil
	}
	if ext == ".json" {
		return ReadJSON, nil
	}
	return nil, errors.Errorf("failed to recognize extension %q for unmarshal", ext)
}

// Flatten a JSON''','''	data := c.Data()
	x := make(map[string]Container)
	switch data.(type) {
	case map[string]interface{}:
	case nil:
		return x, nil
	default:
		return nil, errors.Errorf("children map cannot be called on non-map type")
	}
	for k, v := range c.c.ChildrenMap() {
		x[k] = Container{c: v, path: c.path}
	}
	return x, nil
''','''	data := c.Data()
	if data == nil {
		return make(map[string]Container), nil
	}
	if _, ok := data.(map[string]interface{}); !ok {
		return nil, errors.Errorf("children map cannot be called on non-map type")
	}
	children := c.c.ChildrenMap()
	x := make(map[string]Container, len(children))
	for k := range children {
		x[k] = Container{path: c.path, c: children[k]}
	}
	return x, nil
''','''	val, err := clone(value)
	if err != nil {
		return
	}
	_, err = c.c.SetP(val, path)
	return
''','''	val, err := clone(value)
	if err == nil {
		_, err = c.c.SetP(val, path)
	}
	return err
'''))
ref("container-readdir", ("internal/container/container.go",
'''	var ff []string
	if len(patterns) == 0 {
		patterns = defaultSearchPatterns
	}

	for _, s := range patterns {
		xs, err := filepath.Glob(filepath.Join(escapeGlob(dir), s))
		if err != nil {
			return nil, err
		}
		ff = append(ff, xs...)
	}

	if len(ff) == 0 {
		return
	}

	for _, m := range ff {
		c, err := ReadFile(m)
		if err != nil {
			return cc, err
		}
		cc = append(cc, c)
	}

	return
''','''	ff, err := search(dir, patterns)
	if err != nil {
		return nil, err
	}
	for i := range ff {
		c, err := ReadFile(ff[i])
		if err != nil {
			return cc, err
		}
		cc = append(cc, c)
	}
	return cc, nil
''','''// escapeGlob quotes''','''func search(dir string, patterns []string) (files []string, err error) {
	if len(patterns) == 0 {
		patterns = defaultSearchPatterns
	}
	base := escapeGlob(dir)
	for _, pattern := range patterns {
		found, err := filepath.Glob(filepath.Join(base, pattern))
		if err != nil {
			return nil, err
		}
		files = append(files, found...)
	}
	return files, nil
}

// escapeGlob quotes'''))
ref("merge-methods", ("internal/container/merge.go",
'''			existingData := c.c.Search(newPath...).Data()
			switch t := value.(type) {
			case map[string]interface{}:
				switch existingVal := existingData.(type) {
				case map[string]interface{}:
					err := recursiveFnc(t, newPath)
					if err != nil {
						return err
					}
				default:
					xx, err := collisionFn(existingVal, t)
					if err != nil {
						return errors.Wrapf(err, "at %s", source.path)
					}
					_, err = c.c.Set(xx, newPath...)
					if err != nil {
						return err
					}
				}
			default:
				xx, err := collisionFn(existingData, t)
				if err != nil {
					return errors.Wrapf(err, "at %s", source.path)
				}
				_, err = c.c.Set(xx, newPath...)
				if err != nil {
					return err
				}
			}
''','''			existing := c.c.Search(newPath...).Data()
			src, srcIsMap := value.(map[string]interface{})
			_, dstIsMap := existing.(map[string]interface{})
			if srcIsMap && dstIsMap {
				if err := recursiveFnc(src, newPath); err != nil {
					return err
				}
				continue
			}
			merged, err := collisionFn(existing, value)
			if err != nil {
				return errors.Wrapf(err, "at %s", source.path)
			}
			if _, err := c.c.Set(merged, newPath...); err != nil {
				return err
			}
'''))
ref("merge-toplevel", ("internal/container/merge.go",
'''	var recursiveFnc func(map[string]interface{}, []string) error

	// recursivly merge structures
	recursiveFnc = func(mmap map[string]interface{}, path []string) error {
		for key, value := range mmap {
			newPath := append(path, key)
			if !c.c.Exists(newPath...) {
				// path doesn't exist. So set the value
				if _, err := c.c.Set(value, newPath...); err != nil {
					return err
				}
				continue
			}
			existingData := c.c.Search(newPath...).Data()
			switch t := value.(type) {
			case map[string]interface{}:
				switch existingVal := existingData.(type) {
				case map[string]interface{}:
					err := recursiveFnc(t, newPath)
					if err != nil {
						return err
					}
				default:
					xx, err := collisionFn(existingVal, t)
					if err != nil {
						return errors.Wrapf(err, "at %s", source.path)
					}
					_, err = c.c.Set(xx, newPath...)
					if err != nil {
						return err
					}
				}
			default:
				xx, err := collisionFn(existingData, t)
				if err != nil {
					return errors.Wrapf(err, "at %s", source.path)
				}
				_, err = c.c.Set(xx, newPath...)
				if err != nil {
					return err
				}
			}
		}
		return nil
	}
	if mmap, ok := data.(map[string]interface{}); ok {
		return recursiveFnc(mmap, []string{})
	}
	return nil
}
''','''	object, ok := data.(map[string]interface{})
	if !ok {
		return nil
	}
	m := merging{dest: c, from: source.path, resolve: collisionFn}
	return m.object(object, nil)
}

// merging is one merge of a document into another
type merging struct {
	dest    Container
	from    string
	resolve Merger
}

func (m merging) object(source map[string]interface{}, path []string) error {
	for key, value := range source {
		if err := m.entry(append(path, key), value); err != nil {
			return err
		}
	}
	return nil
}

func (m merging) entry(path []string, value interface{}) error {
	if !m.dest.c.Exists(path...) {
		_, err := m.dest.c.Set(value, path...)
		return err
	}
	existing := m.dest.c.Search(path...).Data()
	if source, ok := value.(map[string]interface{}); ok {
		if _, ok := existing.(map[string]interface{}); ok {
			return m.object(source, path)
		}
	}
	value, err := m.resolve(existing, value)
	if err != nil {
		return errors.Wrapf(err, "at %s", m.from)
	}
	_, err = m.dest.c.Set(value, path...)
	return err
}
'''))
ref("sort-file", ("internal/container/sort.go",
'''	for i, mi := range ms.Sort() {
		b, err := json.Marshal(&mi.Val)
		if err != nil {
			return nil, err
		}
		k, err := json.Marshal(mi.Key)
		if err != nil {
			return nil, err
		}
		buf.Write(k)
		buf.WriteByte(':')
		buf.Write(b)
		if i < len(ms)-1 {
			buf.Write([]byte{','})
		}
	}
	buf.Write([]byte{'}'})
	return buf.Bytes(), nil
}
''','''	for i, mi := range ms.Sort() {
		if i > 0 {
			buf.WriteByte(',')
		}
		if err := mi.write(buf); err != nil {
			return nil, err
		}
	}
	buf.WriteByte('}')
	return buf.Bytes(), nil
}

func (mi MapItem) write(buf *bytes.Buffer) error {
	k, err := json.Marshal(mi.Key)
	if err != nil {
		return err
	}
	b, err := json.Marshal(&mi.Val)
	if err != nil {
		return err
	}
	buf.Write(k)
	buf.WriteString(":")
	buf.Write(b)
	return nil
}
''','''	a := make(MapSlice, len(ms))
	copy(a, ms)
	sort.Sort(a)
	return a
''','''	a := append(MapSlice(nil), ms...)
	sort.Slice(a, func(i, j int) bool { return a[i].less(a[j]) })
	return a
''','''	for k, v := range data {
		if element == v {
			return k
		}
	}
	return -1 //not found.
''','''	for i := 0; i < len(data); i++ {
		if data[i] == element {
			return i
		}
	}
	return -1
'''))
ref("sort-index-map", ("internal/container/sort.go",
'''	return func(_ string, data interface{}) (interface{}, error) {
		if order == nil {
			return data, nil
		}
		dd, ok := data.(map[string]interface{})
		if !ok {
			return data, nil
		}
		var ms MapSlice
		for k, v := range dd {
			ms = append(ms, MapItem{
				Key:   k,
				Val:   v,
				Index: indexOf(k, order),
			})

		}
		sort.Sort(ms)
		return ms, nil
	}
''','''	return func(_ string, data interface{}) (interface{}, error) {
		object, ok := data.(map[string]interface{})
		if order == nil || !ok {
			return data, nil
		}
		return ordered(object, order), nil
	}
''','''// MapItem representation''','''func ordered(object map[string]interface{}, order []string) MapSlice {
	ms := make(MapSlice, 0, len(object))
	for k := range object {
		ms = append(ms, MapItem{Key: k, Val: object[k], Index: indexOf(k, order)})
	}
	sort.Sort(ms)
	return ms
}

// MapItem representation'''))
ref("sort-one-data", ("internal/container/sort.go",
'''	data, err := c.sorter("json", c.c.Data())
	if err != nil {
		return nil, err
	}
''','''	data, err := c.sorted("json")
	if err != nil {
		return nil, err
	}
''','''	data, err := c.sorter("yaml", c.c.Data())
	if err != nil {
		return nil, err
	}
''','''	data, err := c.sorted("yaml")
	if err != nil {
		return nil, err
	}
''','''func indexOf(''','''func (c Sorter) sorted(format string) (interface{}, error) {
	return c.sorter(format, c.Data())
}

func indexOf('''))
ref("oapi-paths", ("internal/oapi/oapi.go",
'''	switch key {
	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
		return true
	}
	return false
}
''','''	for _, m := range operations {
		if m == key {
			return true
		}
	}
	return false
}

var operations = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}
''','''		var mx map[string]container.Container
		mx, err = methods.ChildrenMap()
		if err != nil {
			return
		}
		for m, obj := range mx {
			if !isMethod(m) {
				continue
			}
			ff = append(ff, FlattenPath{
				Method:    m,
				Path:      path,
				Operation: obj,
				Key: container.SliceToDotPath([]string{
					"paths", path, m,
				}),
			})
		}
	}
	return
}
''','''		ops, err := pathItem(path, methods)
		if err != nil {
			return nil, err
		}
		ff = append(ff, ops...)
	}
	return ff, nil
}

func pathItem(path string, item container.Container) (ff FlattenPaths, err error) {
	children, err := item.ChildrenMap()
	if err != nil {
		return nil, err
	}
	for m, obj := range children {
		if isMethod(m) {
			key := container.SliceToDotPath([]string{"paths", path, m})
			ff = append(ff, FlattenPath{m, path, key, obj})
		}
	}
	return ff, nil
}
'''))
ref("oapi-paths-table", ("internal/oapi/oapi.go",
'''		for m, obj := range mx {
			if !isMethod(m) {
				continue
			}
			ff = append(ff, FlattenPath{
''','''		for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
			obj, ok := mx[m]
			if !ok {
				continue
			}
			ff = append(ff, FlattenPath{
'''))
ref("oapi-defaults", ("internal/oapi/oapi.go",
'''		for _, f := range ff {
			var nc, ov container.Container
			nc = f.Operation

			ov, err = container.Make(override)
			if err != nil {
				return
			}

			err = nc.Merge(ov, container.MergeDefault)
			if err != nil {
				return
			}

			err = cnt.SetP(f.Key, nc)
			if err != nil {
				return
			}
		}
	}

	return
}
''','''		for _, f := range ff {
			err = f.setDefaults(cnt, override)
			if err != nil {
				return
			}
		}
	}

	return
}

func (f FlattenPath) setDefaults(cnt container.Container, defaults spec.Operation) error {
	ov, err := container.Make(defaults)
	if err != nil {
		return err
	}
	if err := f.Operation.Merge(ov, container.MergeDefault); err != nil {
		return err
	}
	return cnt.SetP(f.Key, f.Operation)
}
'''))
ref("oapi-defaults-hoist", ("internal/oapi/oapi.go",
'''	var patterns []string
	for pattern := range defops {
		patterns = append(patterns, pattern)
	}
	sort.Strings(patterns)

	for _, pattern := range patterns {
		override := defops[pattern]

		var ff FlattenPaths
		ff, err = paths.Match(pattern)
		if err != nil {
			return
		}
		for _, f := range ff {
			var nc, ov container.Container
			nc = f.Operation

			ov, err = container.Make(override)
			if err != nil {
				return
			}

			err = nc.Merge''','''	patterns := make([]string, 0, len(defops))
	for pattern := range defops {
		patterns = append(patterns, pattern)
	}
	sort.Slice(patterns, func(i, j int) bool { return patterns[i] < patterns[j] })

	for i := 0; i < len(patterns); i++ {
		pattern := patterns[i]

		ff, err := paths.Match(pattern)
		if err != nil {
			return err
		}
		if len(ff) == 0 {
			continue
		}
		ov, err := container.Make(defops[pattern])
		if err != nil {
			return err
		}
		for _, f := range ff {
			nc := f.Operation

			err = nc.Merge''','''			err = cnt.SetP(f.Key, nc)
			if err != nil {
				return
			}
''','''			err = cnt.SetP(f.Key, nc)
			if err != nil {
				return err
			}
''','''			err = nc.Merge(ov, container.MergeDefault)
			if err != nil {
				return
			}
''','''			err = nc.Merge(ov, container.MergeDefault)
			if err != nil {
				return err
			}
'''))
ref("oapi-root", ("internal/oapi/oapi.go",
'''		s := container.New()

		for _, y := range []container.Container{c.Path(x.key), r.Path(x.key)} {
			if y.IsNil() {
				continue
			}

			p, err := container.Make(map[string]interface{}{
				x.key: y.Data(),
			})
			if err != nil {
				return err
			}

			err = s.Merge(p, x.merge)
			if err != nil {
				return err
			}
		}

		err := c.Merge(s, container.MergeOverride)
		if err != nil {
			return err
		}
	}
	return nil
}
''','''		s, err := mergedSection(x.key, x.merge, c, r)
		if err != nil {
			return err
		}
		if err := c.Merge(s, container.MergeOverride); err != nil {
			return err
		}
	}
	return nil
}

// mergedSection merges the section of given documents.
func mergedSection(key string, merge container.Merger, docs ...container.Container) (container.Container, error) {
	s := container.New()
	for _, doc := range docs {
		section := doc.Path(key)
		if section.IsNil() {
			continue
		}
		p, err := container.Make(map[string]interface{}{key: section.Data()})
		if err != nil {
			return container.Zero(), err
		}
		if err = s.Merge(p, merge); err != nil {
			return container.Zero(), err
		}
	}
	return s, nil
}
'''))
ref("oapi-root-unrolled", ("internal/oapi/oapi.go",
'''	type mx struct {
		merge container.Merger
		key   string
	}

	for _, x := range []mx{
		{merge: container.MergeOverride, key: "info"},
		{merge: container.MergeStrict, key: "components"},
		{merge: container.MergeDefault, key: "paths"},
		{merge: container.MergeDefault, key: "externalDocs"},
		{merge: container.MergeDefault, key: "security"},
		{merge: container.MergeDefault, key: "servers"},
		{merge: container.MergeDefault, key: "tags"},
	} {
''','''	for _, x := range rootSections {
''','''// MergeWithRoot will''','''type rootSection struct {
	merge container.Merger
	key   string
}

var rootSections = [...]rootSection{
	{container.MergeOverride, "info"},
	{container.MergeStrict, "components"},
	{container.MergeDefault, "paths"},
	{container.MergeDefault, "externalDocs"},
	{container.MergeDefault, "security"},
	{container.MergeDefault, "servers"},
	{container.MergeDefault, "tags"},
}

// MergeWithRoot will'''))
ref("resolver-steps", ("internal/oapi/resolver/resolver.go",
'''	for _, v := range refs {
		s, ok := v.Val.(string)
		if !ok {
			continue
		}
		p, err := pointer.Parse(s)
		if err != nil {
			return cx, err
		}
		if !p.IsExternal() {
			continue
		}

		if pp.has(p) {
			err = r.setRecursive(cx, p, v.Key)
			if err != nil {
				return zero, err
			}
			continue
		}

		nc, err := r.res.call(p)
		if err != nil {
			return zero, err
		}

		nc, err = r.iterator(nc, append(pp, p), dept+1)
		if err != nil {
			return zero, err
		}

		err = r.set(cx, p, v.Key, nc)
		if err != nil {
			return zero, err
		}
	}
	return cx, nil
}
''','''	for _, v := range refs {
		if err := r.reference(cx, v, pp, dept); err != nil {
			return zero, err
		}
	}
	return cx, nil
}

func (r resolver) reference(cx container.Container, v container.MapItem, pp path, dept int) error {
	s, ok := v.Val.(string)
	if !ok {
		return nil
	}
	p, err := pointer.Parse(s)
	switch {
	case err != nil:
		return err
	case !p.IsExternal():
		return nil
	case pp.has(p):
		return r.setRecursive(cx, p, v.Key)
	}

	nc, err := r.res.call(p)
	if err != nil {
		return err
	}
	nc, err = r.iterator(nc, append(pp, p), dept+1)
	if err != nil {
		return err
	}
	return r.set(cx, p, v.Key, nc)
}
''','''	for i := len(p) - 1; i >= 0; i-- {
		el := p[i]
		if el.String() == px.String() {
			return true
		}
	}
	return false
''','''	text := px.String()
	for _, el := range p {
		if el.String() == text {
			return true
		}
	}
	return false
'''))
ref("resolver-utils", ("internal/oapi/resolver/utils.go",
'''	path, ok := isref(key)
	if !ok {
		return errors.New("not a pointer")
	}
	if key == "$ref" { // whole container is a pointer
		return cx.Replace(value)
	}
	err = cx.SetP(path, value)
	return
''','''	path, ok := isref(key)
	switch {
	case !ok:
		err = errors.New("not a pointer")
	case key == "$ref": // whole container is a pointer
		err = cx.Replace(value)
	default:
		err = cx.SetP(path, value)
	}
	return err
''','''	ss := strings.Split(s, ".")
	if len(ss) == 0 {
		return s, false
	}
	last := ss[len(ss)-1]
	if last != "$ref" {
		return s, false
	}
	return strings.Join(ss[:len(ss)-1], "."), true
''','''	ss := strings.Split(s, ".")
	n := len(ss) - 1
	if n < 0 || ss[n] != refKey {
		return s, false
	}
	return strings.Join(ss[:n], "."), true
''','''func isref(''','''const refKey = "$ref"

func isref(''','''	nptr := pointer.NewPointer()
	nptr.Fragment = f
	err = UpdatePtr(cx, key, nptr)
	return
''','''	return UpdatePtr(cx, key, pointer.Pointer{Fragment: f})
'''))
ref("resolver-set", ("internal/oapi/resolver/resolver.go",
'''	ep, ok := r.exp.Get(ptr)
	if !ok {
		return ReplacePtr(cx, key, value)
	}
	e := EntityValue{
		Entity: ep.Entity,
		Value:  value,
	}
	err = SetEntity(r.con, key, e)
	if err != nil {
		return
	}
	return UpdatePtrToLocal(cx, key, e.Fragment())
''','''	if ep, ok := r.exp.Get(ptr); ok {
		if err := SetEntity(r.con, key, EntityValue{ep.Entity, value}); err != nil {
			return err
		}
		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
	}
	return ReplacePtr(cx, key, value)
''','''	for _, x := range e {
		if x.String() == p.String() {
			return x, true
		}
	}
	return Pointer{}, false
''','''	for i := range e {
		if x := e[i]; x.Pointer.String() == p.String() {
			return x, true
		}
	}
	return Pointer{}, false
''','''	ep, ok := r.exp.Get(ptr)
	if ok && ep.IsScheme() {
		return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
	}
	return ReplacePtrWithEmptyObject(cx, key)
''','''	ep, ok := r.exp.Get(ptr)
	if !ok || !ep.IsScheme() {
		return ReplacePtrWithEmptyObject(cx, key)
	}
	return UpdatePtrToLocal(cx, key, ep.Fragment())
'''), ("internal/oapi/resolver/utils.go", "func (pe Pointer) IsScheme() bool {\n	return pe.Entity.Entity == spec.SchemaKind", "func (pe Entity) IsScheme() bool {\n	return pe.Entity == spec.SchemaKind"), ("internal/oapi/resolver/resolver.go", "	Entity\n	pointer.Pointer\n}", "	Entity\n	pointer.Pointer\n}\n\n// Fragment of the component\nfunc (pe Pointer) Fragment() pointer.Fragment { return pe.Entity.Fragment() }\n\n// String of the reference\nfunc (pe Pointer) String() string { return pe.Pointer.String() }"))
ref("scan-stages", ("oapi.go",
'''	// Here wi will start scanning commands, comments in go code
	cmdsScanner := cmds.NewScanner()
	err = pkgutil.Scan(pkgs, cmdsScanner)
	if err != nil {
		return
	}

	exports, err := cmdsScanner.ExportedComponents()
	if err != nil {
		return
	}

	// Now we scan for yaml files specifications
	specsScanner := specs.NewScanner()
	err = pkgutil.Scan(pkgs, specsScanner)
	if err != nil {
		return
	}

	c, err := specsScanner.Merge()
	if err != nil {
		return
	}

	err = oapi.MergeWithRoot(opts.root, c)
	if err != nil {
		return
	}

	err = oapi.SetPathsDefaults(c, opts.defops)
	if err != nil {
		return
	}

	pp := make(pointer.Pointers)
	pp = pp.Merge(cmdsScanner.Commands.Pointers())
	pp = pp.Merge(specsScanner.Pointers)
	pp, err = collectPointers(pp, c)
	if err != nil {
		return
	}
	for _, ovrd := range opts.override {
		pp, err = collectPointers(pp, ovrd)
		if err != nil {
			return
		}
	}

	// collect and handle types
	tps := types.NewScanner(pp)
	err = pkgutil.Scan(pkgs, tps)
	if err != nil {
		return
	}

	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
		if ovrd, ok := opts.override[ptr.String()]; ok {
			return ovrd, nil
		}
		switch ptr.Scheme {
		case "go":
			e, err = tps.Resolve(ptr)
		default:
			err = errors.New("unknown protocol to resolve")
		}
		return
	})
	if err != nil {
		return
	}

	return newOAPI(cnt)
}
''','''	// Here wi will start scanning commands, comments in go code
	cmdsScanner := cmds.NewScanner()
	if err = pkgutil.Scan(pkgs, cmdsScanner); err != nil {
		return
	}

	// Now we scan for yaml files specifications
	specsScanner := specs.NewScanner()
	if err = pkgutil.Scan(pkgs, specsScanner); err != nil {
		return
	}

	exports, err := cmdsScanner.ExportedComponents()
	if err != nil {
		return
	}

	c, err := opts.document(specsScanner)
	if err != nil {
		return
	}

	pp, err := opts.pointers(c, cmdsScanner.Commands.Pointers(), specsScanner.Pointers)
	if err != nil {
		return
	}

	// collect and handle types
	tps := types.NewScanner(pp)
	if err = pkgutil.Scan(pkgs, tps); err != nil {
		return
	}

	cnt, err := resolver.Resolve(c, exports, opts.resolve(tps))
	if err != nil {
		return
	}

	return newOAPI(cnt)
}

// document merges specifications, root document and default operations.
func (opts *Options) document(scanner *specs.Scanner) (container.Container, error) {
	c, err := scanner.Merge()
	if err != nil {
		return c, err
	}
	if err := oapi.MergeWithRoot(opts.root, c); err != nil {
		return c, err
	}
	return c, oapi.SetPathsDefaults(c, opts.defops)
}

// pointers collects all references.
func (opts *Options) pointers(c container.Container, known ...pointer.Pointers) (pp pointer.Pointers, err error) {
	pp = make(pointer.Pointers)
	for _, k := range known {
		pp = pp.Merge(k)
	}
	pp, err = collectPointers(pp, c)
	if err != nil {
		return nil, err
	}
	for _, ovrd := range opts.override {
		pp, err = collectPointers(pp, ovrd)
		if err != nil {
			return nil, err
		}
	}
	return pp, nil
}

// resolve makes a resolver of references.
func (opts *Options) resolve(tps *types.Scanner) resolver.Fn {
	return func(ptr pointer.Pointer) (spec.Entiter, error) {
		if ovrd, ok := opts.override[ptr.String()]; ok {
			return ovrd, nil
		}
		if ptr.Scheme != "go" {
			return nil, errors.New("unknown protocol to resolve")
		}
		return tps.Resolve(ptr)
	}
}
'''))
ref("scan-small", ("oapi.go",
'''	if opts.dir != nil {
		dir = *opts.dir
	} else {
		dir, err = os.Getwd()
	}
	if err != nil {
		err = errors.Wrap(err, "os")
		return
	}
	return
''','''	if opts.dir != nil {
		return *opts.dir, nil
	}
	dir, err = os.Getwd()
	if err != nil {
		return "", errors.Wrap(err, "os")
	}
	return dir, nil
''','''	x = OAPI{c: c}
	data, err := c.MarshalJSON()
	if err != nil {
		return
	}
	err = json.Unmarshal(data, &x.o)
	return x, err
''','''	x.c = c
	data, err := c.MarshalJSON()
	if err == nil {
		err = json.Unmarshal(data, &x.o)
	}
	return x, err
''','''	for _, ref := range refs {
		s, ok := ref.Val.(string)
		if !ok {
			continue
		}
		p, err := pointer.Parse(s)
		if err != nil {
			return nil, err
		}
		pp = pp.Merge(pointer.NewPointers([]pointer.Pointer{p}))
	}
	return pp, nil
''','''	var found []pointer.Pointer
	for _, ref := range refs {
		if s, ok := ref.Val.(string); ok {
			p, err := pointer.Parse(s)
			if err != nil {
				return nil, err
			}
			found = append(found, p)
		}
	}
	return pp.Merge(pointer.NewPointers(found)), nil
''','''	case "go":
		data, err = cont.MarshalJSON()
		if err != nil {
			return nil, err
		}
		data, err = produceGoFile(tpldata{
			PkgName:     "main",
			OpenAPIJson: string(data),
		})
		return
''','''	case "go":
		return formatGo(cont)
''','''// Format will format''','''func formatGo(cont container.Sorter) ([]byte, error) {
	data, err := cont.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return produceGoFile(tpldata{PkgName: "main", OpenAPIJson: string(data)})
}

// Format will format'''))
ref("format-map", ("oapi.go",
'''	switch f {
	case "yaml", "yml":
		return cont.MarshalYAML()
	case "json":
		return cont.MarshalJSON()
	case "json:pretty":
		return cont.MarshalIndentJSON("", "  ")
	case "go":
		data, err = cont.MarshalJSON()
		if err != nil {
			return nil, err
		}
		data, err = produceGoFile(tpldata{
			PkgName:     "main",
			OpenAPIJson: string(data),
		})
		return
	default:
		return nil, errors.New("unknown format")
	}
''','''	fn, ok := formats[f]
	if !ok {
		return nil, errors.New("unknown format")
	}
	return fn(cont)
''','''// Format will format''','''var formats = map[string]func(container.Sorter) ([]byte, error){
	"yaml": container.Sorter.MarshalYAML,
	"yml":  container.Sorter.MarshalYAML,
	"json": container.Sorter.MarshalJSON,
	"json:pretty": func(s container.Sorter) ([]byte, error) {
		return s.MarshalIndentJSON("", "  ")
	},
	"go": func(s container.Sorter) ([]byte, error) {
		data, err := s.MarshalJSON()
		if err != nil {
			return nil, err
		}
		return produceGoFile(tpldata{PkgName: "main", OpenAPIJson: string(data)})
	},
}

// Format will format'''), ("temp.go", "	bx := bytes.NewBuffer([]byte{})\n	err := tpl.Execute(bx, pkg)\n	if err != nil {\n		return nil, err\n	}\n	return bx.Bytes(), nil", "	var bx bytes.Buffer\n	if err := tpl.Execute(&bx, pkg); err != nil {\n		return nil, err\n	}\n	return bx.Bytes(), nil"))
ref("tag-table", ("tag/tag.go",
'''	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return
''','''	return firstOf(errs...)
''','''func parseTag(''','''func firstOf(errs ...error) error {
	for i := range errs {
		if errs[i] != nil {
			return errs[i]
		}
	}
	return nil
}

func parseTag(''','''	if tag.Name == "-" {
		meta.Ignore = true
		return
	}
	if len(tag.Name) != 0 {
		meta.Name = tag.Name
	}
''','''	if named(tag, meta) {
		return nil
	}
''','''// Parse will parse all''','''// named sets name, and reports if field is to be ignored.
func named(tag *tagparser.Tag, meta *Tag) bool {
	switch tag.Name {
	case "":
	case "-":
		meta.Ignore = true
	default:
		meta.Name = tag.Name
	}
	return tag.Name == "-"
}

// Parse will parse all'''))
ref("tag-loops", ("tag/tag.go",
'''	v, ok := m.Options[tag]
	if !ok {
		return nil
	}
	x, err := strconv.Atoi(v)
	if err != nil {
		return err
	}
	*val = int64(x)
	return nil
''','''	v, ok := m.Options[tag]
	if !ok {
		return nil
	}
	x, err := strconv.ParseInt(v, 10, 64)
	if err == nil {
		*val = x
	}
	return err
''','''	if _, ok := m.Options[tag]; !ok {
		return nil
	}
	var v float64
	err := parseTagFloat(m, tag, &v)
	if err != nil {
		return err
	}
	*val = &v
	return nil
''','''	if _, ok := m.Options[tag]; ok {
		v := new(float64)
		if err := parseTagFloat(m, tag, v); err != nil {
			return err
		}
		*val = v
	}
	return nil
''','''	x, ok := m.Options[tag]
	if !ok {
		return
	}
	if x == "" {
		*val = &ok
	} else {
		var y bool
		y, err = strconv.ParseBool(x)
		if err != nil {
			return
		}
		*val = &y
	}
	return nil
''','''	x, ok := m.Options[tag]
	if !ok {
		return nil
	}
	y := true
	if x != "" {
		y, err = strconv.ParseBool(x)
		if err != nil {
			return err
		}
	}
	*val = &y
	return nil
'''))
ref("types-walk", ("internal/oapi/scan/types/types.go",
'''	type tptr struct {
		p point
		t types.Type
	}

	var next []tptr

	switch u := t.(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			field := u.Field(i)

			if !field.Exported() {
				continue
			}

			next = append(next, tptr{
				p: withDescendant(r, field.Name()),
				t: field.Type(),
			})
		}

	case *types.Pointer:
		next = append(next, tptr{
			p: withPtr(r),
			t: u.Elem(),
		})

	case elementer:
		next = append(next, tptr{
			p: withArray(r),
			t: u.Elem(),
		})
	}

	for _, e := range next {
		err = walk(e.p, e.t, p, m)
		if err != nil {
			return
		}
		named, ok := e.t.(*types.Named)
		if ok && named.Obj().Pkg() != nil {
			np := newPoint(named.Obj())
			err = walk(np, e.t, p, m)
		}
		if err != nil {
			return
		}
	}

	return
}
''','''	switch u := t.(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			field := u.Field(i)
			if !field.Exported() {
				continue
			}
			if err = walkPart(withDescendant(r, field.Name()), field.Type(), p, m); err != nil {
				return err
			}
		}
		return nil
	case *types.Pointer:
		return walkPart(withPtr(r), u.Elem(), p, m)
	case elementer:
		return walkPart(withArray(r), u.Elem(), p, m)
	}
	return nil
}

// walkPart walks a part of a type, under its place and under its own name.
func walkPart(r point, t types.Type, p path, m *pointmap) error {
	if err := walk(r, t, p, m); err != nil {
		return err
	}
	if named, ok := t.(*types.Named); ok && named.Obj().Pkg() != nil {
		return walk(newPoint(named.Obj()), t, p, m)
	}
	return nil
}
'''))
ref("types-struct", ("internal/oapi/scan/types/types.go",
'''		var pschema *spec.Schema

		if len(x.tag.Type) != 0 {
			pschema, err = basicString2schema(x.tag.Type, x.tag)
		} else {
			switch z := x.field.Type().Underlying().(type) {
			// struct
			case *types.Struct:
				pschema, err = reference2schema(z, m, tp, x.tag)

			default:
				pschema, err = type2schema(z, m, tp, x.tag)
			}
		}

		if err != nil {
			return
		}

		name := x.field.Name()
		if len(x.tag.Name) > 0 {
			name = x.tag.Name
		}
''','''		pschema, err := x.schema(m, tp)
		if err != nil {
			return nil, err
		}

		name := x.name()
''','''		if pschema.Ref != nil {
			continue
		}

		pschema.Deprecated = x.tag.Deprecated
		pschema.ReadOnly = x.tag.ReadOnly
		pschema.WriteOnly = x.tag.WriteOnly
		if len(x.tag.Format) > 0 {
			pschema.Format = x.tag.Format
		}

		if x.tag.Nullable != nil {
			pschema.Nullable = *x.tag.Nullable
		}
''','''		if pschema.Ref == nil {
			decorate(pschema, x.tag)
		}
''','''func map2schema(''','''func (x structField) schema(m pointmap, tp path) (*spec.Schema, error) {
	if x.tag.Type != "" {
		return basicString2schema(x.tag.Type, x.tag)
	}
	z := x.field.Type().Underlying()
	if _, ok := z.(*types.Struct); ok {
		return reference2schema(z, m, tp, x.tag)
	}
	return type2schema(z, m, tp, x.tag)
}

func (x structField) name() string {
	if x.tag.Name != "" {
		return x.tag.Name
	}
	return x.field.Name()
}

func decorate(s *spec.Schema, tg tag.Tag) {
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}
	if tg.Format != "" {
		s.Format = tg.Format
	}
	s.Deprecated, s.ReadOnly, s.WriteOnly = tg.Deprecated, tg.ReadOnly, tg.WriteOnly
}

func map2schema('''))
ref("types-lists", ("internal/oapi/scan/types/types.go",
'''	s = &spec.Schema{}
	s.Type = spec.TypeArray
	s.Items = sch
	s.Nullable = true

	s.MinItems = tg.MinItems
	s.MaxItems = tg.MaxItems
	s.UniqueItems = tg.UniqItems
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	return
''','''	return listOf(sch, tg, true), nil
''','''	s = &spec.Schema{}
	s.Type = spec.TypeArray
	s.Items = sch

	s.MinItems = tg.MinItems
	s.MaxItems = tg.MaxItems

	if t.Len() > 0 {
		x := t.Len()
		s.MaxItems = &x
	}

	s.UniqueItems = tg.UniqItems
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	return
''','''	s = listOf(sch, tg, false)
	if n := t.Len(); n > 0 {
		s.MaxItems = &n
	}
	return s, nil
''','''func array2schema(''','''func listOf(items *spec.Schema, tg tag.Tag, nullable bool) *spec.Schema {
	if tg.Nullable != nil {
		nullable = *tg.Nullable
	}
	return &spec.Schema{
		Type:        spec.TypeArray,
		Items:       items,
		Nullable:    nullable,
		MinItems:    tg.MinItems,
		MaxItems:    tg.MaxItems,
		UniqueItems: tg.UniqItems,
	}
}

func array2schema(''','''	s.Nullable = true

	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	if s.Ref == nil {
		return s, nil
	}

	if !s.Nullable {
		return s, nil
	}

	s.Nullable = false

	s = spec.OneSchema(s, &spec.Schema{
		Type:     spec.TypeObject,
		Nullable: true,
	})

	return s, nil
''','''	nullable := tg.Nullable == nil || *tg.Nullable
	if s.Ref != nil {
		s.Nullable = false
		if nullable {
			s = spec.OneSchema(s, &spec.Schema{Type: spec.TypeObject, Nullable: true})
		}
		return s, nil
	}
	s.Nullable = nullable
	return s, nil
'''))
ref("types-basic", ("internal/oapi/scan/types/types.go",
'''	case types.Uint, types.Uint32:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint8:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint16:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint64:
		s = spec.IntFmtProperty("int64")
		s.Minimum = &zero
	case types.Int, types.Int32:
		s = spec.IntFmtProperty("int32")
	case types.Int8:
		s = spec.IntFmtProperty("int32")
	case types.Int16:
		s = spec.IntFmtProperty("int32")
	case types.Int64:
''','''	case types.Uint, types.Uint8, types.Uint16, types.Uint32:
		s = unsigned("int32")
	case types.Uint64:
		s = unsigned("int64")
	case types.Int, types.Int8, types.Int16, types.Int32:
		s = spec.IntFmtProperty("int32")
	case types.Int64:
''','''	zero := 0.
	switch t {''','''	switch t {''','''func basicString2schema(''','''func unsigned(format string) *spec.Schema {
	s := spec.IntFmtProperty(format)
	s.Minimum = new(float64)
	return s
}

func basicString2schema(''','''		if tg.MaxLen != nil {
			s.MaxLength = tg.MaxLen
		}
		if tg.MinLen != nil {
			s.MinLength = tg.MinLen
		}
		s.Pattern = tg.Pattern
''','''		s.MinLength, s.MaxLength, s.Pattern = tg.MinLen, tg.MaxLen, tg.Pattern
''','''		if tg.MulOf != nil {
			s.MultipleOf = tg.MulOf
		}
''','''		s.MultipleOf = tg.MulOf
'''))
ref("types-inline", ("internal/oapi/scan/types/types.go",
'''	tx := t.Type().Underlying()
	// check for pointer
	if p, ok := tx.(*types.Pointer); ok {
		tx = p.Elem().Underlying()
	}
	st, ok := tx.(*types.Struct)
	if ok {
		if tg.Inline != nil {
			ok = *tg.Inline
		} else {
			ok = t.Embedded()
		}
	}
	return st, ok
''','''	inline := t.Embedded()
	if tg.Inline != nil {
		inline = *tg.Inline
	}
	if !inline {
		return nil, false
	}
	tx := t.Type().Underlying()
	// check for pointer
	if p, ok := tx.(*types.Pointer); ok {
		tx = p.Elem().Underlying()
	}
	st, ok := tx.(*types.Struct)
	return st, ok
''','''		st, ok := castInlineStruct(x, tx)
		if ok {
			var z []structField
			z, err = collectStructFields(st, p)
			if err != nil {
				return
			}
			arr = append(arr, z...)
		} else {
			arr = append(arr, structField{
				field: x,
				tag:   tx,
			})
		}
	}
	return
''','''		st, ok := castInlineStruct(x, tx)
		if !ok {
			arr = append(arr, structField{field: x, tag: tx})
			continue
		}
		inner, err := collectStructFields(st, p)
		if err != nil {
			return nil, err
		}
		for _, f := range inner {
			arr = append(arr, f)
		}
	}
	return arr, nil
'''))
ref("types-type2", ("internal/oapi/scan/types/types.go",
'''	switch u := t.(type) {

	// So struct will be converted into object
	case *types.Struct:
		if len(tp) == 1 {
			return struct2schema(u, m, tp)
		}
		return reference2schema(u, m, tp, tg)

	case *types.Array:
		return array2schema(u, m, tp, tg)

	// Basic type will just popoulate type and format
	case *types.Basic:
		return basic2schema(u.Kind(), tg)

	case *types.Map:
		return map2schema(u, m, tp, tg)

	case *types.Slice:
		return slice2schema(u, m, tp, tg)

	case *types.Pointer:
		return pointer2schema(u, m, tp, tg)

	// We cant marshal to schema
	default:
		err := errors.Errorf("type %q is not supported as a element for openapi", u.String())
		return nil, err
	}
''','''	if u, ok := t.(*types.Struct); ok {
		if len(tp) > 1 {
			return reference2schema(u, m, tp, tg)
		}
		return struct2schema(u, m, tp)
	}
	if u, ok := t.(*types.Basic); ok {
		return basic2schema(u.Kind(), tg)
	}
	if u, ok := t.(elementer); ok {
		return element2schema(u, m, tp, tg)
	}
	return nil, errors.Errorf("type %q is not supported as a element for openapi", t.String())
''','''func typeElement2schema(''','''func element2schema(t elementer, m pointmap, tp path, tg tag.Tag) (*spec.Schema, error) {
	switch u := t.(type) {
	case *types.Map:
		return map2schema(u, m, tp, tg)
	case *types.Array:
		return array2schema(u, m, tp, tg)
	case *types.Slice:
		return slice2schema(u, m, tp, tg)
	case *types.Pointer:
		return pointer2schema(u, m, tp, tg)
	}
	return nil, errors.Errorf("type %q is not supported as a element for openapi", t.String())
}

func typeElement2schema('''))
ref("point-find", ("internal/oapi/scan/types/point.go",
'''	var pp *point
	var tt *types.Type
	tp.each(func(key types.Type, p2 point) {
		if pp != nil {
			return
		}
		if !fn(key, p2) {
			return
		}
		pp = &p2
		tt = &key
	})
	if pp != nil && tt != nil {
		return *pp, *tt, true
	}
	return point{}, nil, false
''','''	var (
		found bool
		pp    point
		tt    types.Type
	)
	tp.each(func(key types.Type, p2 point) {
		if !found && fn(key, p2) {
			found, pp, tt = true, p2, key
		}
	})
	return pp, tt, found
''','''	for _, p := range s {
		if compare(p) {
			pp = append(pp, p)
		}
	}
	return pp
}

func (s points) has(p2 point) bool {
	return s.filter(p2.equal).Len() > 0
}
''','''	for _, p := range s {
		if compare(p) {
			pp = append(pp, p)
		}
	}
	return pp
}

func (s points) has(p2 point) bool {
	for i := range s {
		if s[i].equal(p2) {
			return true
		}
	}
	return false
}
''','''	if s[i].Fragment.Len() != s[j].Fragment.Len() {
		return s[i].Fragment.Len() < s[j].Fragment.Len()
	}
	return s[i].String() < s[j].String()
''','''	a, b := s[i], s[j]
	if m, n := a.Fragment.Len(), b.Fragment.Len(); m != n {
		return m < n
	}
	return a.String() < b.String()
'''))
ref("point-children", ("internal/oapi/scan/types/point.go",
'''	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant(name)
	x.Fragment = fx
	return x
}

func withArray(ptr point) point {
	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant("[]")
	x.Fragment = fx
	return x
}

func withPtr(ptr point) point {
	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant("*")
	x.Fragment = fx
	return x
}
''','''	x := ptr.Clone()
	x.Fragment = x.Fragment.RawDescendant(name)
	return x
}

func withArray(ptr point) point {
	return withDescendant(ptr, "[]")
}

func withPtr(ptr point) point {
	return withDescendant(ptr, "*")
}
'''))
ref("types-scan", ("internal/oapi/scan/types/scan.go",
'''	for _, ptr := range r.Pointers {
		url := ptr.URL
		if url.Scheme != "go" {
			continue
		}
		if pkg.Types.Path() != ptr.PkgPath() {
			continue
		}
		head, ok := ptr.Fragment.Head()
		if !ok {
			continue
		}
		obj := scope.Lookup(head)
		if obj == nil {
			continue
		}
		err := collectTypes(obj, &r.points)
		if err != nil {
			return errors.Wrapf(err, "failed to register type %q", obj.Type().String())
		}
	}

	return
}
''','''	for _, ptr := range r.Pointers {
		obj := lookup(scope, pkg, ptr)
		if obj == nil {
			continue
		}
		if err := collectTypes(obj, &r.points); err != nil {
			return errors.Wrapf(err, "failed to register type %q", obj.Type().String())
		}
	}
	return nil
}

// lookup finds object of pkg which ptr points to.
func lookup(scope *types.Scope, pkg *packages.Package, ptr pointer.Pointer) types.Object {
	if ptr.Scheme != "go" || ptr.PkgPath() != pkg.Types.Path() {
		return nil
	}
	head, ok := ptr.Fragment.Head()
	if !ok {
		return nil
	}
	return scope.Lookup(head)
}
''','''import (''','''import (
	"go/types"
'''))
ref("cmds-parse", ("internal/oapi/scan/cmds/cmds.go",
'''		c := cmt.Text[2:]
		hasPrefix := strings.HasPrefix(c, prefix)
		if !hasPrefix {
			continue
		}
		c = c[len(prefix):]
		c = strings.TrimRight(c, " \\n")
		cc = append(cc, c)
''','''		if c := cmt.Text[2:]; strings.HasPrefix(c, prefix) {
			cc = append(cc, strings.TrimRight(strings.TrimPrefix(c, prefix), " \\n"))
		}
''','''	switch k {
	case SchemaKind:
		s, err = NewCmdSchema(r)
		return
	case RootKind:
		s, err = NewCmdRoot(r)
		return
	default:
		err = errors.New(fmt.Sprintf("invalid open api cmd: %q", cmd))
		return
	}
''','''	if k == SchemaKind {
		return NewCmdSchema(r)
	}
	if k == RootKind {
		return NewCmdRoot(r)
	}
	return nil, errors.New(fmt.Sprintf("invalid open api cmd: %q", cmd))
''','''		switch n := c.(type) {
		case CmdSchema:
			x[n.Ptr.String()] = n.Ptr
		}
''','''		n, ok := c.(CmdSchema)
		if !ok {
			continue
		}
		x[n.Ptr.String()] = n.Ptr
'''), ("internal/oapi/scan/cmds/args.go", '''	x := Args{}
	for _, z := range a {
		x = append(x, strings.Trim(z, " "))
	}
	return x
''', '''	x := make(Args, len(a))
	for i := range a {
		x[i] = strings.Trim(a[i], " ")
	}
	return x
''', '''	if int(index) > len(a)-1 {
		return "", false
	}
	return a[index], true
''','''	if int(index) < len(a) {
		return a[index], true
	}
	return "", false
'''))
ref("cmds-scan", ("internal/oapi/scan/cmds/scan.go",
'''	groups := []*ast.CommentGroup{}
	comments := []string{}
	for _, s := range pkg.Syntax {
		groups = append(groups, s.Comments...)
	}
	for _, g := range groups {
		comments = append(comments, ParseCommentGroup(g)...)
	}
	var cc List
	for _, c := range comments {
		x, err := Parse(pkg, c)
		if err != nil {
			return errors.Wrapf(err, "failed to parse openapi sytnax")
		}
		cc = append(cc, x)
	}
	r.Commands[pkg.PkgPath] = cc
	return
}
''','''	var cc List
	for _, file := range pkg.Syntax {
		for _, group := range file.Comments {
			cmds, err := parseGroup(pkg, group)
			if err != nil {
				return err
			}
			cc = append(cc, cmds...)
		}
	}
	r.Commands[pkg.PkgPath] = cc
	return nil
}

func parseGroup(pkg *packages.Package, group *ast.CommentGroup) (cc List, err error) {
	for _, c := range ParseCommentGroup(group) {
		x, err := Parse(pkg, c)
		if err != nil {
			return nil, errors.Wrapf(err, "failed to parse openapi sytnax")
		}
		cc = append(cc, x)
	}
	return cc, nil
}
''','''	for _, cmd := range cc {
		switch x := cmd.(type) {
		case CmdSchema:
			if _, ok := exports.Get(x.Ptr); ok || names[x.Name] {
				err = errors.Errorf("schema of type %q already registered", x.Name)
				return
			}
			names[x.Name] = true
			entity := resolver.Entity{
				Entity: spec.SchemaKind,
				Name:   x.Name,
			}
			exp := resolver.Pointer{
				Pointer: x.Ptr,
				Entity:  entity,
			}
			exports = append(exports, exp)
		}
	}
	return
''','''	for _, cmd := range cc {
		x, ok := cmd.(CmdSchema)
		if !ok {
			continue
		}
		_, known := exports.Get(x.Ptr)
		if known || names[x.Name] {
			return exports, errors.Errorf("schema of type %q already registered", x.Name)
		}
		names[x.Name] = true
		exports = append(exports, resolver.Pointer{
			Entity:  resolver.Entity{Entity: spec.SchemaKind, Name: x.Name},
			Pointer: x.Ptr,
		})
	}
	return exports, nil
'''))
ref("cmds-schema", ("internal/oapi/scan/cmds/schema.go",
'''	switch cmd.args.Len() {
	case 1:
		if invalid(nok, name) {
			return nil, rerr
		}
		sx.Name = name
		sx.Ptr, err = makePtr(name)
		if err != nil {
			return nil, err
		}
		if last, ok := sx.Ptr.Fragment.Last(); ok {
			sx.Name = last
		}
		return sx, nil
	case 2:
		if invalid(nok, name) {
			return nil, rerr
		}
		if invalid(pok, ptr) {
			return nil, rerr
		}
		sx.Name = name
		sx.Ptr, err = makePtr(ptr)
		if err != nil {
			return nil, err
		}
		return sx, nil
	default:
		return nil, errors.New("invalid number of arguments")
	}
''','''	n := cmd.args.Len()
	if n != 1 && n != 2 {
		return nil, errors.New("invalid number of arguments")
	}
	if n == 1 {
		ptr, pok = name, nok
	}
	if invalid(nok, name) || invalid(pok, ptr) {
		return nil, rerr
	}
	sx.Ptr, err = makePtr(ptr)
	if err != nil {
		return nil, err
	}
	sx.Name = name
	if n == 1 {
		if last, ok := sx.Ptr.Fragment.Last(); ok {
			sx.Name = last
		}
	}
	return sx, nil
'''))
ref("specs-scan", ("internal/oapi/scan/specs/scan.go",
'''		refs, err := container.ExtractKey(c, "$ref")
		if err != nil {
			return err
		}

		for _, v := range refs {
			x, ok := v.Val.(string)
			if !ok {
				continue
			}
			p, err := pointer.Parse(x)
			if err != nil {
				return err
			}

			// this allow local references of go://#/Struct
			if p.Scheme == "go" && p.PkgPath() == "" {
				pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
				pf.Fragment = p.Fragment
				p = pf
			}

			r.Pointers[p.String()] = p

			err = c.SetP(v.Key, p.String())
			if err != nil {
				return err
			}
		}

		cc = append(cc, c)
	}

	r.Containers = append(r.Containers, cc...)

	return
}
''','''		if err := r.collect(pkg, c); err != nil {
			return err
		}
		cc = append(cc, c)
	}

	r.Containers = append(r.Containers, cc...)

	return nil
}

func (r *Scanner) collect(pkg *packages.Package, c container.Container) error {
	refs, err := container.ExtractKey(c, "$ref")
	if err != nil {
		return err
	}
	for _, v := range refs {
		x, ok := v.Val.(string)
		if !ok {
			continue
		}
		p, err := parse(pkg, x)
		if err != nil {
			return err
		}
		text := p.String()
		r.Pointers[text] = p
		if err = c.SetP(v.Key, text); err != nil {
			return err
		}
	}
	return nil
}

// parse parses reference, allowing local ones of go://#/Struct
func parse(pkg *packages.Package, ref string) (pointer.Pointer, error) {
	p, err := pointer.Parse(ref)
	if err != nil || p.Scheme != "go" || p.PkgPath() != "" {
		return p, err
	}
	pf, _ := pointer.NewGoPointer(pkg.PkgPath, "")
	pf.Fragment = p.Fragment
	return pf, nil
}
'''))
ref("pkgutil-visit", ("internal/pkgutil/util.go",
'''	var errs []error

	seen := make(map[*packages.Package]bool)
	var visit func(*packages.Package)
	visit = func(pkg *packages.Package) {
		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
			return
		}
		seen[pkg] = true

		// First collect and check parsing errors
		for _, err := range pkg.Errors {
			errs = append(errs, errors.Wrapf(err, "failed to parse pkg"))
		}

		paths := make([]string, 0, len(pkg.Imports))
		for path := range pkg.Imports {
			paths = append(paths, path)
		}
		sort.Strings(paths) // Imports is a map, this makes visit stable
		for _, path := range paths {
			visit(pkg.Imports[path])
		}

		if err := fn.Scan(pkg); err != nil {
			errs = append(errs, err)
			return
		}
	}

	for _, pkg := range pkgs {
		visit(pkg)
	}

	if len(errs) > 0 {
		return newSingleError(errs)
	}

	return nil
}
''','''	v := visitor{scanner: fn, seen: make(map[*packages.Package]bool)}
	for _, pkg := range pkgs {
		v.visit(pkg)
	}
	if len(v.errs) == 0 {
		return nil
	}
	return newSingleError(v.errs)
}

// visitor visits packages, each once
type visitor struct {
	scanner Scanner
	seen    map[*packages.Package]bool
	errs    []error
}

func (v *visitor) visit(pkg *packages.Package) {
	if pkg == nil || v.seen[pkg] || IsStdLibPkg(pkg) {
		return
	}
	v.seen[pkg] = true

	// First collect and check parsing errors
	for _, err := range pkg.Errors {
		v.errs = append(v.errs, errors.Wrapf(err, "failed to parse pkg"))
	}
	for _, path := range importPaths(pkg) {
		v.visit(pkg.Imports[path])
	}
	if err := v.scanner.Scan(pkg); err != nil {
		v.errs = append(v.errs, err)
	}
}

// importPaths lists paths of imports in a stable order
func importPaths(pkg *packages.Package) (paths []string) {
	for path := range pkg.Imports {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	return paths
}
'''), ("internal/pkgutil/info.go", '''	if pkg.Module == nil {
		p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
		if _, err := os.Stat(p); os.IsNotExist(err) {
			return p, false
		}
		return p, true
	}
	if len(pkg.Module.Dir) == 0 {
		return "", false
	}
	return filepath.Join(pkg.Module.Dir, strings.Replace(pkg.PkgPath, pkg.Module.Path, "", 1)), true
''','''	if m := pkg.Module; m != nil {
		if m.Dir == "" {
			return "", false
		}
		rel := strings.Replace(pkg.PkgPath, m.Path, "", 1)
		return filepath.Join(m.Dir, rel), true
	}
	p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
	_, err := os.Stat(p)
	return p, !os.IsNotExist(err)
'''))
ref("config-read", ("internal/oapi/config/config.go",
'''	cx, err := container.ReadJSON(data)
	if err != nil {
		return
	}
	err = extends(cx, "")
	if err != nil {
		return
	}
	err = decode(cx, &c)
	if err != nil {
		return
	}
	return
''','''	cx, err := container.ReadJSON(data)
	if err != nil {
		return Config{}, err
	}
	return load(cx, "")
''','''	err = extends(cx, filepath.Dir(file))
	if err != nil {
		return
	}
	err = decode(cx, &c)
	if err != nil {
		return
	}
	c.FilePath = file
	return
''','''	c, err = load(cx, filepath.Dir(file))
	if err != nil {
		return
	}
	c.FilePath = file
	return c, nil
''','''func decode(''','''func load(cx container.Container, dir string) (c Config, err error) {
	if err = extends(cx, dir); err != nil {
		return Config{}, err
	}
	err = decode(cx, &c)
	return c, err
}

func decode(''','''	if !c.ExistsP("extends") {
		return
	}
	p, ok := c.Path("extends").Data().(string)
	if !ok {
		return
	}
''','''	p, ok := c.Path("extends").Data().(string)
	if !ok {
		return nil
	}
'''))
ref("cli-config", ("cmd/oapi/config.go",
'''	// directory of execution
	dir := wd
	if len(cfg.Dir) > 0 {
		dir = toAbsPath(cfg.Dir, filepath.Dir(cfg.FilePath))
	}
	// if flags are present let them overwrite
	if len(ff.Dir) > 0 {
		dir = toAbsPath(ff.Dir, wd)
	}
	cfg.Dir = dir

	// format of openapi
	if len(cfg.Format) == 0 {
		cfg.Format = "json:pretty"
	}
	if len(ff.Format) > 0 {
		cfg.Format = ff.Format
	}

	// output destination
	output := "stdout"
	if len(cfg.Output) > 0 {
		output = toOutput(cfg.Output, cfg.Dir)
	}
	if len(ff.Output) > 0 {
		output = toOutput(ff.Output, wd)
	}
	cfg.Output = output
''','''	cfg.Dir = ff.directory(cfg, wd)
	cfg.Format = first(ff.Format, cfg.Format, "json:pretty")
	cfg.Output = ff.destination(cfg, wd)
''','''func toOutput(''','''// directory of execution, if flags are present let them overwrite
func (ff Config) directory(cfg config.Config, wd string) string {
	switch {
	case ff.Dir != "":
		return toAbsPath(ff.Dir, wd)
	case cfg.Dir != "":
		return toAbsPath(cfg.Dir, filepath.Dir(cfg.FilePath))
	default:
		return wd
	}
}

func (ff Config) destination(cfg config.Config, wd string) string {
	if ff.Output != "" {
		return toOutput(ff.Output, wd)
	}
	if cfg.Output != "" {
		return toOutput(cfg.Output, cfg.Dir)
	}
	return "stdout"
}

// first returns first of values which is not empty
func first(values ...string) string {
	for _, v := range values {
		if v != "" {
			return v
		}
	}
	return ""
}

func toOutput(''','''	if filepath.IsAbs(path) {
		return path
	}
	return filepath.Join(fallback, path)
''','''	if !filepath.IsAbs(path) {
		path = filepath.Join(fallback, path)
	}
	return path
'''))
ref("cli-main", ("cmd/oapi/main.go",
'''	var w io.Writer

	switch config.Output {
	case "stdout", "":
		w = os.Stdout
	case "stderr":
		w = os.Stderr
	default:
		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
		if err != nil {
			fatal(log, "%s", err.Error())
		}
	}

	_, err = io.Copy(w, bytes.NewBuffer(data))
	if err != nil {
		fatal(log, "%s", err.Error())
	}
}
''','''	if err := write(config.Output, data); err != nil {
		fatal(log, "%s", err.Error())
	}
}

func open(output string) (io.Writer, error) {
	switch output {
	case "stdout", "":
		return os.Stdout, nil
	case "stderr":
		return os.Stderr, nil
	}
	return os.OpenFile(output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
}

func write(output string, data []byte) error {
	w, err := open(output)
	if err != nil {
		return err
	}
	_, err = io.Copy(w, bytes.NewReader(data))
	return err
}
'''))
ref("cli-run", ("cmd/oapi/main.go",
'''	spec, err := scan(ctx, log, config)
	if err != nil {
		fatal(log, "err during scan: %s", err.Error())
	}

	data, err := oapi.Format(config.Format, spec)
	if err != nil {
		fatal(log, "err during format: %s", err.Error())
	}
''','''	data, err := produce(ctx, log, config)
	if err != nil {
		fatal(log, "err %s", err.Error())
	}
''','''func main() {''','''func produce(ctx context.Context, log logging.Printer, cfg config.Config) ([]byte, error) {
	spec, err := scan(ctx, log, cfg)
	if err != nil {
		return nil, fmt.Errorf("during scan: %s", err)
	}
	data, err := oapi.Format(cfg.Format, spec)
	if err != nil {
		return nil, fmt.Errorf("during format: %s", err)
	}
	return data, nil
}

func main() {''','''import (
	"bytes"
	"context"
''','''import (
	"bytes"
	"context"
	"fmt"
''','''	"github.com/buypal/oapi-go/internal/logging"
''','''	"github.com/buypal/oapi-go/internal/logging"
	"github.com/buypal/oapi-go/internal/oapi/config"
'''))
ref("cli-scan", ("cmd/oapi/scan.go",
'''	opts := []oapi.Option{
		oapi.WithLog(log),
	}

	// execution directory
	if len(cfg.Dir) > 0 {
		opts = append(opts, oapi.WithDir(cfg.Dir))
	}

	if len(cfg.Overrides) > 0 {
		opts = append(opts, oapi.WithOverride(cfg.Overrides))
	}

	if len(cfg.Operations) > 0 {
		opts = append(opts, oapi.WithDefOps(cfg.Operations))
	}

	opts = append(opts, oapi.WithRootSchema(spec.OpenAPI{
		Info:         cfg.Info,
		Servers:      cfg.Servers,
		Components:   cfg.Components,
		Security:     cfg.Security,
		Tags:         cfg.Tags,
		ExternalDocs: cfg.ExternalDocs,
	}))

	return oapi.Scan(ctx, opts...)
''','''	return oapi.Scan(ctx, options(log, cfg)...)
}

func options(log logging.Printer, cfg config.Config) []oapi.Option {
	root := spec.OpenAPI{}
	root.Info = cfg.Info
	root.Servers = cfg.Servers
	root.Components = cfg.Components
	root.Security = cfg.Security
	root.Tags = cfg.Tags
	root.ExternalDocs = cfg.ExternalDocs

	opts := []oapi.Option{oapi.WithLog(log), oapi.WithRootSchema(root)}
	if cfg.Dir != "" {
		opts = append(opts, oapi.WithDir(cfg.Dir))
	}
	if len(cfg.Overrides) != 0 {
		opts = append(opts, oapi.WithOverride(cfg.Overrides))
	}
	if len(cfg.Operations) != 0 {
		opts = append(opts, oapi.WithDefOps(cfg.Operations))
	}
	return opts
'''))
ref("route-syncmap", ("internal/route/route.go", '''	regexen   = make(map[string]*regexp.Regexp)
''', '''	regexen   sync.Map
''', '''
	relock sync.Mutex
''', '''''', '''func compileCached(pattern string) (*regexp.Regexp, error) {
	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''', '''func compileCached(pattern string) (*regexp.Regexp, error) {
	if v, ok := regexen.Load(pattern); ok {
		return v.(*regexp.Regexp), nil
	}
	regex, err := regexp.Compile("^" + pattern + "$")
	if err != nil {
		return nil, err
	}
	regexen.Store(pattern, regex)
	return regex, nil
}
'''))
ref("route-ptr-cache", ("internal/route/route.go", '''	regexen   = make(map[string]*regexp.Regexp)
''', '''	regexen   = newCache()
''', '''
	relock sync.Mutex
''', '''''', '''func compileCached(pattern string) (*regexp.Regexp, error) {
	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''', '''type cache struct {
	mu sync.RWMutex
	m  map[string]*regexp.Regexp
}

func newCache() *cache { return &cache{m: map[string]*regexp.Regexp{}} }

func (c *cache) lookup(pattern string) (*regexp.Regexp, bool) {
	c.mu.RLock()
	defer c.mu.RUnlock()
	r, ok := c.m[pattern]
	return r, ok
}

func (c *cache) put(pattern string, r *regexp.Regexp) {
	c.mu.Lock()
	c.m[pattern] = r
	c.mu.Unlock()
}

func compileCached(pattern string) (*regexp.Regexp, error) {
	if r, ok := regexen.lookup(pattern); ok {
		return r, nil
	}
	r, err := regexp.Compile("^" + pattern + "$")
	if err != nil {
		return nil, err
	}
	regexen.put(pattern, r)
	return r, nil
}
'''))
ref("route-locked", ("internal/route/route.go", '''func compileCached(pattern string) (*regexp.Regexp, error) {
	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''', '''func locked(f func()) {
	relock.Lock()
	defer relock.Unlock()
	f()
}

func compileCached(pattern string) (regex *regexp.Regexp, err error) {
	locked(func() {
		if regex = regexen[pattern]; regex != nil {
			return
		}
		if regex, err = regexp.Compile("^" + pattern + "$"); err == nil {
			regexen[pattern] = regex
		}
	})
	return regex, err
}
'''))
ref("route-nocache", ("internal/route/route.go", '''	regexen   = make(map[string]*regexp.Regexp)
''', '''''', '''
	relock sync.Mutex
''', '''''', '''	"sync"
''', '''''', '''func compileCached(pattern string) (*regexp.Regexp, error) {
	relock.Lock()
	defer relock.Unlock()

	regex := regexen[pattern]
	if regex == nil {
		var err error
		regex, err = regexp.Compile("^" + pattern + "$")
		if err != nil {
			return nil, err
		}
		regexen[pattern] = regex
	}
	return regex, nil
}
''', '''func compileCached(pattern string) (*regexp.Regexp, error) {
	return regexp.Compile("^" + pattern + "$")
}
'''))
ref("orders-helpers", ("internal/oapi/oapi.go", '''	var patterns []string
	for pattern := range defops {
		patterns = append(patterns, pattern)
	}
	sort.Strings(patterns)

	for _, pattern := range patterns {
''', '''	for _, pattern := range sortedPatterns(defops) {
''', '''// MergeWithRoot will''', '''// sortedPatterns are the routes of given operations.
func sortedPatterns(defops map[string]spec.Operation) []string {
	patterns := make([]string, len(defops))
	i := 0
	for pattern := range defops {
		patterns[i] = pattern
		i++
	}
	sort.Slice(patterns, func(i, j int) bool { return patterns[i] < patterns[j] })
	return patterns
}

// MergeWithRoot will'''), ("internal/oapi/scan/cmds/scan.go", '''	var pkgs []string
	for pkg := range r.Commands {
		pkgs = append(pkgs, pkg)
	}
	sort.Strings(pkgs)
	for _, pkg := range pkgs {
		cc = append(cc, r.Commands[pkg]...)
	}
''', '''	for _, pkg := range r.packages() {
		cc = append(cc, r.Commands[pkg]...)
	}
''', '''// ExportedComponents will''', '''// packages are the paths of the scanned packages.
func (r *Scanner) packages() []string {
	pkgs := make([]string, 0, len(r.Commands))
	for pkg := range r.Commands {
		pkgs = append(pkgs, pkg)
	}
	sort.Sort(sort.StringSlice(pkgs))
	return pkgs
}

// ExportedComponents will'''), ("oapi.go", '''	for _, ovrd := range opts.override {
		pp, err = collectPointers(pp, ovrd)
		if err != nil {
			return
		}
	}
''', '''	for name := range opts.override {
		more, err := collectPointers(pp, opts.override[name])
		if err != nil {
			return OAPI{}, err
		}
		pp = more
	}
'''))
ref("orders-paths-sorted", ("internal/oapi/oapi.go", '''	for path, methods := range paths {
		var mx map[string]container.Container
		mx, err = methods.ChildrenMap()
		if err != nil {
			return
		}
		for m, obj := range mx {
			if !isMethod(m) {
				continue
			}
			ff = append(ff, FlattenPath{
				Method:    m,
				Path:      path,
				Operation: obj,
				Key: container.SliceToDotPath([]string{
					"paths", path, m,
				}),
			})
		}
	}
	return
''', '''	names := make([]string, 0, len(paths))
	for path := range paths {
		names = append(names, path)
	}
	sort.Strings(names)

	for _, path := range names {
		mx, err := paths[path].ChildrenMap()
		if err != nil {
			return nil, err
		}
		methods := make([]string, 0, len(mx))
		for m := range mx {
			if isMethod(m) {
				methods = append(methods, m)
			}
		}
		sort.Strings(methods)
		for _, m := range methods {
			f := FlattenPath{Method: m, Path: path}
			f.Operation = mx[m]
			f.Key = container.SliceToDotPath([]string{"paths", path, m})
			ff = append(ff, f)
		}
	}
	return ff, nil
'''))
ref("orders-mmap", ("internal/container/utils.go", '''		m := map[string]interface{}{}
		var keys []interface{}
		for k := range x {
			keys = append(keys, k)
		}
		// keys of several types may have the same text, as 1 and "1"
		sort.Slice(keys, func(i, j int) bool {
			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
		})
		for _, k := range keys {
			v2 := x[k]
			switch k2 := k.(type) {
			case string: // Fast check if it's already a string
				m[k2] = mmap(v2)
			default:
				m[fmt.Sprint(k)] = mmap(v2)
			}
		}
		v = m
''', '''		m := make(map[string]interface{}, len(x))
		for _, k := range byType(x) {
			m[fmt.Sprint(k)] = mmap(x[k])
		}
		return m
''', '''func mmap(v interface{})''', '''// (see byType for the order of keys which have the same text)
func mmap(v interface{})''') if False else ("internal/container/utils.go", '''		m := map[string]interface{}{}
		var keys []interface{}
		for k := range x {
			keys = append(keys, k)
		}
		// keys of several types may have the same text, as 1 and "1"
		sort.Slice(keys, func(i, j int) bool {
			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
		})
		for _, k := range keys {
			v2 := x[k]
			switch k2 := k.(type) {
			case string: // Fast check if it's already a string
				m[k2] = mmap(v2)
			default:
				m[fmt.Sprint(k)] = mmap(v2)
			}
		}
		v = m
''', '''		m := make(map[string]interface{}, len(x))
		for _, k := range byType(x) {
			m[fmt.Sprint(k)] = mmap(x[k])
		}
		return m
''', '''// mmap walks the given''', '''// byType lists keys, those of several types with one text (as 1 and "1") in the
// order of the types.
func byType(x map[interface{}]interface{}) (keys []interface{}) {
	for k := range x {
		keys = append(keys, k)
	}
	sort.SliceStable(keys, func(i, j int) bool {
		a, b := fmt.Sprintf("%T", keys[i]), fmt.Sprintf("%T", keys[j])
		return a < b
	})
	return keys
}

// mmap walks the given'''))

# --- positions and parts, asked for in other ways
ref("bounds-route", ("internal/route/route.go", '''	for _, x := range variables.FindAllStringIndex(pattern, -1) {
		if len(x) != 2 {
			continue
		}
		i, j := x[0], x[1]
		parts = append(parts, regexp.QuoteMeta(pattern[last:i]))
		switch {
		case pattern[i] == '{' && pattern[j-1] == '}':
			parts = append(parts, "([^/]+)")
		case pattern[i] == '*':
			parts = append(parts, "(.*)")
		default:
			parts = append(parts, pattern[i:j])
		}
		last = j
	}
''', '''	places := variables.FindAllStringIndex(pattern, -1)
	for n := 0; n < len(places); n++ {
		from, to := places[n][0], places[n][1]
		variable := pattern[from:to]
		parts = append(parts, regexp.QuoteMeta(pattern[last:from]))
		if variable[0] == '{' && variable[len(variable)-1] == '}' {
			parts = append(parts, "([^/]+)")
		} else if variable == "*" {
			parts = append(parts, "(.*)")
		} else {
			parts = append(parts, variable)
		}
		last = to
	}
'''))
ref("bounds-method", ("internal/route/route.go", '''	for _, m := range methods {
		met := strings.ToLower(m)
		if strings.HasPrefix(strings.ToLower(pattern), met+":") {
			fm = met
			pattern = pattern[len(m)+1:]
			break
		}
	}
''', '''	lower := strings.ToLower(pattern)
	for i := 0; i < len(methods); i++ {
		prefix := strings.ToLower(methods[i]) + ":"
		if strings.HasPrefix(lower, prefix) {
			fm = prefix[:len(prefix)-1]
			pattern = pattern[len(prefix):]
			break
		}
	}
'''))
ref("bounds-isref", ("internal/oapi/resolver/utils.go", '''	ss := strings.Split(s, ".")
	if len(ss) == 0 {
		return s, false
	}
	last := ss[len(ss)-1]
	if last != "$ref" {
		return s, false
	}
	return strings.Join(ss[:len(ss)-1], "."), true
''', '''	i := strings.LastIndexByte(s, '.')
	if s[i+1:] != "$ref" {
		return s, false
	}
	if i < 0 {
		return "", true
	}
	return s[:i], true
'''))
ref("bounds-isref-suffix", ("internal/oapi/resolver/utils.go", '''	ss := strings.Split(s, ".")
	if len(ss) == 0 {
		return s, false
	}
	last := ss[len(ss)-1]
	if last != "$ref" {
		return s, false
	}
	return strings.Join(ss[:len(ss)-1], "."), true
''', '''	const suffix = ".$ref"
	if s == "$ref" {
		return "", true
	}
	if !strings.HasSuffix(s, suffix) {
		return s, false
	}
	return s[:len(s)-len(suffix)], true
'''))
ref("bounds-fragment", ("internal/pointer/fragment.go", '''	if len(str) == 0 {
		return []string{}, nil
	}

	if str[0] != '/' {
		return nil, fmt.Errorf("non-empty references must begin with a '/' character")
	}
	str = str[1:]

	toks := strings.Split(str, separator)
	for i, t := range toks {
		toks[i] = unescapeToken(t)
	}
	return toks, nil
''', '''	if str == "" {
		return []string{}, nil
	}
	if !strings.HasPrefix(str, "/") {
		return nil, fmt.Errorf("non-empty references must begin with a '/' character")
	}
	toks := strings.Split(str, separator)[1:]
	for i := len(toks) - 1; i >= 0; i-- {
		toks[i] = unescapeToken(toks[i])
	}
	return toks, nil
''', '''	if len(p) == 0 {
		return "", false
	}
	return p[0], true
''', '''	switch {
	case p.IsEmpty():
		return "", false
	default:
		return p[0], true
	}
''', '''	if len(p) == 0 {
		return "", false
	}
	return p[len(p)-1], true
''', '''	n := len(p)
	if n > 0 {
		return p[n-1], true
	}
	return "", false
'''))
ref("bounds-cmds", ("internal/oapi/scan/cmds/cmds.go", '''		c := cmt.Text[2:]
		hasPrefix := strings.HasPrefix(c, prefix)
		if !hasPrefix {
			continue
		}
		c = c[len(prefix):]
		c = strings.TrimRight(c, " \\n")
		cc = append(cc, c)
''', '''		if c, ok := command(cmt.Text[2:]); ok {
			cc = append(cc, c)
		}
''', '''// Parse will parse''', '''func command(c string) (string, bool) {
	if len(c) < len(prefix) || c[:len(prefix)] != prefix {
		return "", false
	}
	return strings.TrimRight(c[len(prefix):], " \\n"), true
}

// Parse will parse''', '''	cmd := strings.Split(comment, " ")
	if len(cmd) == 0 {
		err = errors.New("failed to parse cmd")
		return
	}
	x := strings.Trim(cmd[0], " ")
	k := CmdKind(x)
''', '''	words := strings.Split(comment, " ")
	name, cmd := words[0], words
	k := CmdKind(strings.Trim(name, " "))
	x := string(k)
'''))
ref("bounds-dotpath", ("internal/container/utils.go", '''	hierarchy := make([]string, len(path))
	for i, v := range path {
		v = strings.Replace(v, "~", "~0", -1)
		v = strings.Replace(v, ".", "~1", -1)
		hierarchy[i] = v
	}
''', '''	n := len(path)
	hierarchy := make([]string, n)
	for i := 0; i != n; i++ {
		v := strings.Replace(path[i], "~", "~0", -1)
		hierarchy[i] = strings.Replace(v, ".", "~1", -1)
	}
'''))
ref("bounds-extract", ("internal/container/utils.go", '''		path = path[:len(path):len(path)]
		switch x := v.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(append(path, k), x[k])
			}
''', '''		path = path[:len(path):len(path)]
		switch x := v.(type) {
		case map[string]interface{}:
			keys, n := make([]string, len(x)), 0
			for k := range x {
				keys[n] = k
				n++
			}
			sort.Strings(keys)
			for len(keys) > 0 {
				k := keys[0]
				keys = keys[1:]
				walk(append(path, k), x[k])
			}
''', '''			if path[len(path)-1] != key {
				return
			}
''', '''			if n := len(path); path[n-1] != key {
				return
			}
'''))
ref("bounds-has", ("internal/oapi/resolver/resolver.go", '''	for i := len(p) - 1; i >= 0; i-- {
		el := p[i]
		if el.String() == px.String() {
			return true
		}
	}
	return false
''', '''	for i := len(p); i > 0; i-- {
		if p[i-1].String() == px.String() {
			return true
		}
	}
	return false
'''), ("internal/oapi/scan/cmds/args.go", '''	if int(index) > len(a)-1 {
		return "", false
	}
	return a[index], true
''', '''	if index >= uint(len(a)) {
		return "", false
	}
	return a[index], true
'''), ("internal/oapi/scan/types/point.go", '''	pp := tp.at(t)
	if len(pp) == 0 {
		return point{}, false
	}
	sort.Sort(pp)
	return pp[0], true
''', '''	pp := tp.at(t)
	sort.Sort(pp)
	for _, p := range pp {
		return p, true
	}
	return point{}, false
'''))

# other ways to end what calls itself
ref("ends-visitor", ("internal/pkgutil/util.go", '''	var errs []error

	seen := make(map[*packages.Package]bool)
	var visit func(*packages.Package)
	visit = func(pkg *packages.Package) {
		if pkg == nil || seen[pkg] || IsStdLibPkg(pkg) {
			return
		}
		seen[pkg] = true
''', '''	w := &walker{fn: fn, seen: make(map[*packages.Package]struct{})}
	for _, pkg := range pkgs {
		w.visit(pkg)
	}
	if len(w.errs) > 0 {
		return newSingleError(w.errs)
	}
	return nil
}

type walker struct {
	fn   Scanner
	seen map[*packages.Package]struct{}
	errs []error
}

func (w *walker) visit(pkg *packages.Package) {
		if pkg == nil || IsStdLibPkg(pkg) {
			return
		}
		if _, ok := w.seen[pkg]; ok {
			return
		}
		w.seen[pkg] = struct{}{}
''', '''			errs = append(errs, errors.Wrapf(err, "failed to parse pkg"))
''', '''			w.errs = append(w.errs, errors.Wrapf(err, "failed to parse pkg"))
''', '''			visit(pkg.Imports[path])
''', '''			w.visit(pkg.Imports[path])
''', '''		if err := fn.Scan(pkg); err != nil {
			errs = append(errs, err)
			return
		}
	}

	for _, pkg := range pkgs {
		visit(pkg)
	}

	if len(errs) > 0 {
		return newSingleError(errs)
	}

	return nil
}
''', '''		if err := w.fn.Scan(pkg); err != nil {
			w.errs = append(w.errs, err)
			return
		}
}
'''))
ref("ends-before", ("internal/pkgutil/util.go", '''		for _, path := range paths {
			visit(pkg.Imports[path])
		}
''', '''		for _, path := range paths {
			imp := pkg.Imports[path]
			if seen[imp] {
				continue
			}
			visit(imp)
		}
'''))
ref("ends-mmap", ("internal/container/utils.go", '''		s := make([]interface{}, len(x))
		for i, v2 := range x {
			s[i] = mmap(v2)
		}
		v = s
''', '''		v = mmapAll(x)
''', '''		m := make(map[string]interface{}, len(x))
		for k, v2 := range x {
			m[k] = mmap(v2)
		}
		v = m
	}

	return v
}
''', '''		m := make(map[string]interface{}, len(x))
		for k := range x {
			m[k] = mmap(x[k])
		}
		v = m
	}

	return v
}

func mmapAll(x []interface{}) []interface{} {
	var s = make([]interface{}, 0, len(x))
	for i := 0; i < len(x); i++ {
		s = append(s, mmap(x[i]))
	}
	return s
}
'''))

ref("ends-merge", ("internal/container/merge.go", '''				case map[string]interface{}:
					err := recursiveFnc(t, newPath)
					if err != nil {
						return err
					}
''', '''				case map[string]interface{}:
					sub := value.(map[string]interface{})
					if err := recursiveFnc(sub, newPath); err != nil {
						return err
					}
'''))
ref("ends-fields", ("internal/oapi/scan/types/types.go", '''	// prevent cycles
	if p.has(t) {
		return []structField{}, nil
	}
	p = append(p, t)
''', '''	p, visited := p.visit(t)
	if visited {
		return []structField{}, nil // prevent cycles
	}
''', '''func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
''', '''// collectStructFields lists the fields of a struct, with those of inlined ones.
func collectStructFields(t *types.Struct, p path) (arr []structField, err error) {
'''))
ref("ends-index", ("internal/oapi/scan/types/types.go", '''	for i, tx := range tp {
		if types.Identical(tx, t) {
			return i
		}
	}
	return -1
}
''', '''	i := len(tp) - 1
	for ; i >= 0; i-- {
		if types.Identical(t, tp[i]) {
			break
		}
	}
	return i
}
'''))
ref("ends-chain", ("internal/oapi/resolver/resolver.go", '''		nc, err = r.iterator(nc, append(pp, p), dept+1)
		if err != nil {
			return zero, err
		}
''', '''		chain := make(path, 0, len(pp)+1)
		chain = append(chain, pp...)
		chain = append(chain, p)
		nc, err = r.iterator(nc, chain, dept+1)
		if err != nil {
			return zero, err
		}
'''))
ref("ends-loops", ("internal/oapi/scan/types/point.go", '''	for _, p := range s {
		if compare(p) {
			pp = append(pp, p)
		}
	}
	return pp
''', '''	rest := s
	for len(rest) > 0 {
		p := rest[0]
		rest = rest[1:]
		if !compare(p) {
			continue
		}
		pp = append(pp, p)
	}
	return pp
'''), ("internal/container/utils.go", '''	hierarchy := make([]string, len(path))
	for i, v := range path {
		v = strings.Replace(v, "~", "~0", -1)
		v = strings.Replace(v, ".", "~1", -1)
		hierarchy[i] = v
	}
	return strings.Join(hierarchy, ".")
''', '''	var hierarchy []string
	for len(hierarchy) < len(path) {
		v := path[len(hierarchy)]
		v = strings.Replace(v, "~", "~0", -1)
		v = strings.Replace(v, ".", "~1", -1)
		hierarchy = append(hierarchy, v)
	}
	return strings.Join(hierarchy, ".")
'''))
LG='internal/logging/logging.go'; PT='internal/oapi/scan/types/point.go'; RS='internal/oapi/resolver/resolver.go'; RU='internal/oapi/resolver/utils.go'
ref("more-logging", (LG,
'''	switch strings.ToLower(lvl) {
	case "panic":
		return PanicLevel, nil
	case "fatal":
		return FatalLevel, nil
	case "error":
		return ErrorLevel, nil
	case "warn", "warning":
		return WarnLevel, nil
	case "info":
		return InfoLevel, nil
	case "debug":
		return DebugLevel, nil
	case "trace":
		return TraceLevel, nil
	}

	var l Level
	return l, fmt.Errorf("not a valid logrus Level: %q", lvl)
''','''	if l, ok := levels[strings.ToLower(lvl)]; ok {
		return l, nil
	}
	return PanicLevel, fmt.Errorf("not a valid logrus Level: %q", lvl)
''','''// ParseLevel takes''','''var levels = map[string]Level{
	"panic":   PanicLevel,
	"fatal":   FatalLevel,
	"error":   ErrorLevel,
	"warn":    WarnLevel,
	"warning": WarnLevel,
	"info":    InfoLevel,
	"debug":   DebugLevel,
	"trace":   TraceLevel,
}

// ParseLevel takes''','''	if fn == nil {
		return
	}
	fn(lvl, m, args...)
''','''	if fn != nil {
		fn(lvl, m, args...)
	}
''','''	log.Printf(FatalLevel, m, args...)''','''	Log(log, FatalLevel, m, args...)''','''	log.Printf(InfoLevel, m, args...)''','''	Log(log, InfoLevel, m, args...)'''))
ref("more-info", ("internal/pkgutil/info.go",
'''	if pkg.Module == nil {
		p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
		if _, err := os.Stat(p); os.IsNotExist(err) {
			return p, false
		}
		return p, true
	}
	if len(pkg.Module.Dir) == 0 {
		return "", false
	}
	return filepath.Join(pkg.Module.Dir, strings.Replace(pkg.PkgPath, pkg.Module.Path, "", 1)), true
''','''	switch mod := pkg.Module; {
	case mod == nil:
		p := filepath.Join(getGoPath(), "src", pkg.PkgPath)
		return p, exists(p)
	case mod.Dir == "":
		return "", false
	default:
		rel := strings.Replace(pkg.PkgPath, mod.Path, "", 1)
		return filepath.Join(mod.Dir, rel), true
	}
''','''func getPkgPath(''','''func exists(p string) bool {
	_, err := os.Stat(p)
	return !os.IsNotExist(err)
}

func getPkgPath(''','''	gopath := os.Getenv("GOPATH")
	if gopath == "" {
		gopath = build.Default.GOPATH
	}
	return gopath
''','''	if gopath := os.Getenv("GOPATH"); gopath != "" {
		return gopath
	}
	return build.Default.GOPATH
''','''	p, ok := getPkgPath(pkg)
	if !ok {
		return "", errors.Errorf("failed to determine pkg info for pkg %s", pkg.PkgPath)
	}
	return p, nil
''','''	if p, ok := getPkgPath(pkg); ok {
		return p, nil
	}
	return "", errors.Errorf("failed to determine pkg info for pkg %s", pkg.PkgPath)
'''))
ref("more-gofile", ("temp.go",'''	bx := bytes.NewBuffer([]byte{})
	err := tpl.Execute(bx, pkg)
	if err != nil {
		return nil, err
	}
	return bx.Bytes(), nil
''','''	var bx bytes.Buffer
	if err := tpl.Execute(&bx, pkg); err != nil {
		return nil, err
	}
	return bx.Bytes(), nil
''','''	if strconv.CanBackquote(s) {
		return "`" + s + "`"
	}
	return strconv.Quote(s)
''','''	if !strconv.CanBackquote(s) {
		return strconv.Quote(s)
	}
	return "`" + s + "`"
'''))
ref("more-args", ("internal/oapi/scan/cmds/args.go",'''	x := Args{}
	for _, z := range a {
		x = append(x, strings.Trim(z, " "))
	}
	return x
''','''	x := make(Args, len(a))
	for i, z := range a {
		x[i] = strings.Trim(z, " ")
	}
	return x
''','''	if int(index) > len(a)-1 {
		return "", false
	}
	return a[index], true
''','''	if index < uint(len(a)) {
		return a[index], true
	}
	return "", false
'''))
ref("more-points", (PT,'''func withDescendant(ptr point, name string) point {
	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant(name)
	x.Fragment = fx
	return x
}

func withArray(ptr point) point {
	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant("[]")
	x.Fragment = fx
	return x
}

func withPtr(ptr point) point {
	x := ptr.Clone()
	fx, _ := x.Fragment.Descendant("*")
	x.Fragment = fx
	return x
}
''','''const (
	arrayToken = "[]"
	ptrToken   = "*"
)

func withDescendant(ptr point, name string) point {
	x := ptr.Clone()
	x.Fragment, _ = x.Fragment.Descendant(name)
	return x
}

func withArray(ptr point) point { return withDescendant(ptr, arrayToken) }

func withPtr(ptr point) point { return withDescendant(ptr, ptrToken) }
''','''	for _, p := range s {
		if compare(p) {
			pp = append(pp, p)
		}
	}
	return pp
''','''	for i := range s {
		if !compare(s[i]) {
			continue
		}
		pp = append(pp, s[i])
	}
	return
''','''	return s.filter(p2.equal).Len() > 0
''','''	for _, p := range s {
		if p.equal(p2) {
			return true
		}
	}
	return false
''','''	if s[i].Fragment.Len() != s[j].Fragment.Len() {
		return s[i].Fragment.Len() < s[j].Fragment.Len()
	}
	return s[i].String() < s[j].String()
''','''	a, b := s[i], s[j]
	switch n, m := a.Fragment.Len(), b.Fragment.Len(); {
	case n < m:
		return true
	case n > m:
		return false
	}
	return a.String() < b.String()
''','''	_, t, ok := tp.find(func(key types.Type, p2 point) bool {
		return p1.String() == p2.Pointer.String()
	})
	return t, ok
''','''	want := point{Pointer: p1}
	_, t, ok := tp.find(func(_ types.Type, p2 point) bool {
		return want.equal(p2)
	})
	return t, ok
'''))
ref("more-findtype", (PT,'''	var pp *point
	var tt *types.Type
	tp.each(func(key types.Type, p2 point) {
		if pp != nil {
			return
		}
		if !fn(key, p2) {
			return
		}
		pp = &p2
		tt = &key
	})
	if pp != nil && tt != nil {
		return *pp, *tt, true
	}
	return point{}, nil, false
''','''	var (
		pp point
		tt types.Type
		ok bool
	)
	tp.each(func(key types.Type, p2 point) {
		if !ok && fn(key, p2) {
			pp, tt, ok = p2, key, true
		}
	})
	return pp, tt, ok
'''))
ref("more-resolver-path", (RS,'''type path []pointer.Pointer

func (p path) has(px pointer.Pointer) bool {
	for i := len(p) - 1; i >= 0; i-- {
		el := p[i]
		if el.String() == px.String() {
			return true
		}
	}
	return false
}''','''type path []string

func (p path) has(px pointer.Pointer) bool {
	s := px.String()
	for _, el := range p {
		if el == s {
			return true
		}
	}
	return false
}''','append(pp, p), dept+1','append(pp, p.String()), dept+1'))
ref("more-resolver-visit", (RS,'''	for _, v := range refs {
		s, ok := v.Val.(string)
		if !ok {
			continue
		}
		p, err := pointer.Parse(s)
		if err != nil {
			return cx, err
		}
		if !p.IsExternal() {
			continue
		}

		if pp.has(p) {
			err = r.setRecursive(cx, p, v.Key)
			if err != nil {
				return zero, err
			}
			continue
		}

		nc, err := r.res.call(p)
		if err != nil {
			return zero, err
		}

		nc, err = r.iterator(nc, append(pp, p), dept+1)
		if err != nil {
			return zero, err
		}

		err = r.set(cx, p, v.Key, nc)
		if err != nil {
			return zero, err
		}
	}
	return cx, nil
}
''','''	for i := range refs {
		if err := r.visit(cx, refs[i], pp, dept); err != nil {
			return zero, err
		}
	}
	return cx, nil
}

// visit replaces one reference.
func (r resolver) visit(cx container.Container, v container.MapItem, pp path, dept int) error {
	s, ok := v.Val.(string)
	if !ok {
		return nil
	}
	p, err := pointer.Parse(s)
	switch {
	case err != nil:
		return err
	case !p.IsExternal():
		return nil
	case pp.has(p):
		return r.setRecursive(cx, p, v.Key)
	}

	nc, err := r.res.call(p)
	if err != nil {
		return err
	}
	if nc, err = r.iterator(nc, append(pp, p), dept+1); err != nil {
		return err
	}
	return r.set(cx, p, v.Key, nc)
}
'''))
ref("more-resolver-refs", (RU,'''	ss := strings.Split(s, ".")
	if len(ss) == 0 {
		return s, false
	}
	last := ss[len(ss)-1]
	if last != "$ref" {
		return s, false
	}
	return strings.Join(ss[:len(ss)-1], "."), true
''','''	if s == refKey {
		return "", true
	}
	if !strings.HasSuffix(s, "."+refKey) {
		return s, false
	}
	return strings.TrimSuffix(s, "."+refKey), true
''','''func isref(''','''const refKey = "$ref"

func isref(''','''	if key == "$ref" { // whole''','''	if key == refKey { // whole'''),
(RS,'''	for _, x := range e {
		if x.String() == p.String() {
			return x, true
		}
	}
	return Pointer{}, false
''','''	want := p.String()
	for i := range e {
		if e[i].Pointer.String() == want {
			return e[i], true
		}
	}
	return Pointer{}, false
'''))
ref("more-mapslice", ("internal/container/sort.go",'''	buf := &bytes.Buffer{}
	buf.Write([]byte{'{'})
	for i, mi := range ms.Sort() {
		b, err := json.Marshal(&mi.Val)
		if err != nil {
			return nil, err
		}
		k, err := json.Marshal(mi.Key)
		if err != nil {
			return nil, err
		}
		buf.Write(k)
		buf.WriteByte(':')
		buf.Write(b)
		if i < len(ms)-1 {
			buf.Write([]byte{','})
		}
	}
	buf.Write([]byte{'}'})
	return buf.Bytes(), nil
''','''	var buf bytes.Buffer
	buf.WriteByte('{')
	for i, mi := range ms.Sort() {
		if i > 0 {
			buf.WriteByte(',')
		}
		if err := mi.writeJSON(&buf); err != nil {
			return nil, err
		}
	}
	buf.WriteByte('}')
	return buf.Bytes(), nil
''','''// MapSlice of map items.''','''func (mi MapItem) writeJSON(buf *bytes.Buffer) error {
	k, err := json.Marshal(mi.Key)
	if err != nil {
		return err
	}
	b, err := json.Marshal(mi.Val)
	if err != nil {
		return err
	}
	buf.Write(k)
	buf.WriteByte(':')
	buf.Write(b)
	return nil
}

// MapSlice of map items.'''))
ref("more-mapslice-append", ("internal/container/sort.go",'''	buf := &bytes.Buffer{}
	buf.Write([]byte{'{'})
	for i, mi := range ms.Sort() {
		b, err := json.Marshal(&mi.Val)
		if err != nil {
			return nil, err
		}
		k, err := json.Marshal(mi.Key)
		if err != nil {
			return nil, err
		}
		buf.Write(k)
		buf.WriteByte(':')
		buf.Write(b)
		if i < len(ms)-1 {
			buf.Write([]byte{','})
		}
	}
	buf.Write([]byte{'}'})
	return buf.Bytes(), nil
''','''	out := []byte{'{'}
	for i, mi := range ms.Sort() {
		if i > 0 {
			out = append(out, ',')
		}
		b, err := json.Marshal(mi.Val)
		if err != nil {
			return nil, err
		}
		k, err := json.Marshal(mi.Key)
		if err != nil {
			return nil, err
		}
		out = append(out, k...)
		out = append(out, ':')
		out = append(out, b...)
	}
	return append(out, '}'), nil
''','''import (
	"bytes"
''','''import ('''))
ref("more-merge", ("internal/container/merge.go",'''			existingData := c.c.Search(newPath...).Data()
			switch t := value.(type) {
			case map[string]interface{}:
				switch existingVal := existingData.(type) {
				case map[string]interface{}:
					err := recursiveFnc(t, newPath)
					if err != nil {
						return err
					}
				default:
					xx, err := collisionFn(existingVal, t)
					if err != nil {
						return errors.Wrapf(err, "at %s", source.path)
					}
					_, err = c.c.Set(xx, newPath...)
					if err != nil {
						return err
					}
				}
			default:
				xx, err := collisionFn(existingData, t)
				if err != nil {
					return errors.Wrapf(err, "at %s", source.path)
				}
				_, err = c.c.Set(xx, newPath...)
				if err != nil {
					return err
				}
			}
''','''			existing := c.c.Search(newPath...).Data()
			t, isMap := value.(map[string]interface{})
			if _, ok := existing.(map[string]interface{}); ok && isMap {
				if err := recursiveFnc(t, newPath); err != nil {
					return err
				}
				continue
			}
			merged, err := collisionFn(existing, value)
			if err != nil {
				return errors.Wrapf(err, "at %s", source.path)
			}
			if _, err = c.c.Set(merged, newPath...); err != nil {
				return err
			}
'''))
ref("more-schema-cmd", ("internal/oapi/scan/cmds/schema.go",'''	switch cmd.args.Len() {
	case 1:
		if invalid(nok, name) {
			return nil, rerr
		}
		sx.Name = name
		sx.Ptr, err = makePtr(name)
		if err != nil {
			return nil, err
		}
		if last, ok := sx.Ptr.Fragment.Last(); ok {
			sx.Name = last
		}
		return sx, nil
	case 2:
		if invalid(nok, name) {
			return nil, rerr
		}
		if invalid(pok, ptr) {
			return nil, rerr
		}
		sx.Name = name
		sx.Ptr, err = makePtr(ptr)
		if err != nil {
			return nil, err
		}
		return sx, nil
	default:
		return nil, errors.New("invalid number of arguments")
	}
''','''	n := cmd.args.Len()
	if n != 1 && n != 2 {
		return nil, errors.New("invalid number of arguments")
	}
	if invalid(nok, name) || n == 2 && invalid(pok, ptr) {
		return nil, rerr
	}
	target := name
	if n == 2 {
		target = ptr
	}
	sx.Name = name
	if sx.Ptr, err = makePtr(target); err != nil {
		return nil, err
	}
	if last, ok := sx.Ptr.Fragment.Last(); ok && n == 1 {
		sx.Name = last
	}
	return sx, nil
'''))
ref("more-exports", ("internal/oapi/scan/cmds/scan.go",'''	for _, cmd := range cc {
		switch x := cmd.(type) {
		case CmdSchema:
			if _, ok := exports.Get(x.Ptr); ok || names[x.Name] {
				err = errors.Errorf("schema of type %q already registered", x.Name)
				return
			}
			names[x.Name] = true
			entity := resolver.Entity{
				Entity: spec.SchemaKind,
				Name:   x.Name,
			}
			exp := resolver.Pointer{
				Pointer: x.Ptr,
				Entity:  entity,
			}
			exports = append(exports, exp)
		}
	}
	return
''','''	for _, cmd := range cc {
		x, ok := cmd.(CmdSchema)
		if !ok {
			continue
		}
		_, known := exports.Get(x.Ptr)
		if known || names[x.Name] {
			return exports, errors.Errorf("schema of type %q already registered", x.Name)
		}
		names[x.Name] = true
		exports = append(exports, export(x))
	}
	return exports, nil
''','''// ExportedComponents will''','''func export(x CmdSchema) resolver.Pointer {
	return resolver.Pointer{
		Pointer: x.Ptr,
		Entity:  resolver.Entity{Entity: spec.SchemaKind, Name: x.Name},
	}
}

// ExportedComponents will''','''	groups := []*ast.CommentGroup{}
	comments := []string{}
	for _, s := range pkg.Syntax {
		groups = append(groups, s.Comments...)
	}
	for _, g := range groups {
		comments = append(comments, ParseCommentGroup(g)...)
	}
''','''	var comments []string
	for _, s := range pkg.Syntax {
		for _, g := range s.Comments {
			comments = append(comments, ParseCommentGroup(g)...)
		}
	}
''','''	"go/ast"
''',''))
ref("more-clone", ("internal/container/utils.go",'''	if x, ok := c.(Container); ok {
		return x, true
	}
	if x, ok := c.(*Container); ok && x != nil {
		return *x, true
	}
	return Container{}, false
''','''	switch x := c.(type) {
	case Container:
		return x, true
	case *Container:
		if x != nil {
			return *x, true
		}
	}
	return Container{}, false
''','''	if x, ok := cast(c); ok {
		return x
	}
	return Container{
		c: gabs.Wrap(c),
	}
''','''	x, ok := cast(c)
	if !ok {
		x = Container{c: gabs.Wrap(c)}
	}
	return x
'''),("internal/container/container.go",'''	val, err := clone(value)
	if err != nil {
		return
	}
	_, err = c.c.SetP(val, path)
	return
''','''	val, err := clone(value)
	if err == nil {
		_, err = c.c.SetP(val, path)
	}
	return err
''','''	for k, v := range c.c.ChildrenMap() {
		x[k] = Container{c: v, path: c.path}
	}
	return x, nil
''','''	for k, v := range c.c.ChildrenMap() {
		child := c
		child.c = v
		x[k] = child
	}
	return x, nil
'''))
ref("more-clone-decoder", ("internal/container/utils.go",'''	var mm interface{}
	json.Unmarshal(bb, &mm) // no need for error check
	return mm, nil
''','''	var mm interface{}
	if err := json.Unmarshal(bb, &mm); err != nil {
		return nil, errors.Wrapf(err, "failed to clone interface{}")
	}
	return mm, nil
'''))
TY='internal/oapi/scan/types/types.go'
ref("more-types-nullable", (TY,'''	s.MinProperties = tg.MinProps
	s.MaxProperties = tg.MaxProps
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}
''','''	s.MinProperties, s.MaxProperties = tg.MinProps, tg.MaxProps
	s.Nullable = nullable(tg, s.Nullable)
''','''	s.UniqueItems = tg.UniqItems
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	return
}

func array2schema(''','''	s.UniqueItems = tg.UniqItems
	s.Nullable = nullable(tg, true)

	return
}

// nullable is the choice of the tag, or else the given one.
func nullable(tg tag.Tag, or bool) bool {
	if tg.Nullable == nil {
		return or
	}
	return *tg.Nullable
}

func array2schema(''','''	s.Nullable = true

	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	if s.Ref == nil {
		return s, nil
	}

	if !s.Nullable {
		return s, nil
	}

	s.Nullable = false

	s = spec.OneSchema(s, &spec.Schema{
		Type:     spec.TypeObject,
		Nullable: true,
	})

	return s, nil
''','''	s.Nullable = nullable(tg, true)
	if s.Ref == nil || !s.Nullable {
		return s, nil
	}
	s.Nullable = false
	null := &spec.Schema{Type: spec.TypeObject, Nullable: true}
	return spec.OneSchema(s, null), nil
'''))
ref("more-types-fields", (TY,'''	for _, x := range fields {
		var pschema *spec.Schema

		if len(x.tag.Type) != 0 {
			pschema, err = basicString2schema(x.tag.Type, x.tag)
		} else {
			switch z := x.field.Type().Underlying().(type) {
			// struct
			case *types.Struct:
				pschema, err = reference2schema(z, m, tp, x.tag)

			default:
				pschema, err = type2schema(z, m, tp, x.tag)
			}
		}

		if err != nil {
			return
		}

		name := x.field.Name()
		if len(x.tag.Name) > 0 {
			name = x.tag.Name
		}

		s.Properties[name] = pschema

		if x.tag.Required {
			s.Required = append(s.Required, name)
		}

		if pschema.Ref != nil {
			continue
		}

		pschema.Deprecated = x.tag.Deprecated
		pschema.ReadOnly = x.tag.ReadOnly
		pschema.WriteOnly = x.tag.WriteOnly
		if len(x.tag.Format) > 0 {
			pschema.Format = x.tag.Format
		}

		if x.tag.Nullable != nil {
			pschema.Nullable = *x.tag.Nullable
		}
	}

	return
}
''','''	for _, x := range fields {
		p, err := x.schema(m, tp)
		if err != nil {
			return s, err
		}
		if p.Ref == nil {
			x.tag.apply(p)
		}
		s.Properties[x.name()] = p
		if x.tag.Required {
			s.Required = append(s.Required, x.name())
		}
	}

	return s, nil
}

// name is the name of the property of a field.
func (x structField) name() string {
	if x.tag.Name != "" {
		return x.tag.Name
	}
	return x.field.Name()
}

// schema converts the type of a field.
func (x structField) schema(m pointmap, tp path) (*spec.Schema, error) {
	if x.tag.Type != "" {
		return basicString2schema(x.tag.Type, x.tag)
	}
	t := x.field.Type().Underlying()
	if _, ok := t.(*types.Struct); ok {
		return reference2schema(t, m, tp, x.tag)
	}
	return type2schema(t, m, tp, x.tag)
}
'''.replace('x.tag.apply(p)','x.apply(p)')+'''
// apply gives a schema what the tag says of it.
func (x structField) apply(s *spec.Schema) {
	s.Deprecated, s.ReadOnly, s.WriteOnly = x.tag.Deprecated, x.tag.ReadOnly, x.tag.WriteOnly
	if x.tag.Format != "" {
		s.Format = x.tag.Format
	}
	if x.tag.Nullable != nil {
		s.Nullable = *x.tag.Nullable
	}
}
'''))
ref("more-walk", (TY,'''	for _, e := range next {
		err = walk(e.p, e.t, p, m)
		if err != nil {
			return
		}
		named, ok := e.t.(*types.Named)
		if ok && named.Obj().Pkg() != nil {
			np := newPoint(named.Obj())
			err = walk(np, e.t, p, m)
		}
		if err != nil {
			return
		}
	}

	return
}
''','''	for _, e := range next {
		if err := walk(e.p, e.t, p, m); err != nil {
			return err
		}
		np, ok := placeOf(e.t)
		if !ok {
			continue
		}
		if err := walk(np, e.t, p, m); err != nil {
			return err
		}
	}

	return nil
}

// placeOf is the place of a type which has a name in some package.
func placeOf(t types.Type) (point, bool) {
	named, ok := t.(*types.Named)
	if !ok || named.Obj().Pkg() == nil {
		return point{}, false
	}
	return newPoint(named.Obj()), true
}
'''))
ref("more-fields-cycle", (TY,'''	for i := 0; i < t.NumFields(); i++ {
		x := t.Field(i)
		var tx tag.Tag
		tx, err = tag.Parse(t.Tag(i))
		if err != nil {
			return
		}
		if tx.Ignore || !x.Exported() {
			continue
		}
		st, ok := castInlineStruct(x, tx)
		if ok {
			var z []structField
			z, err = collectStructFields(st, p)
			if err != nil {
				return
			}
			arr = append(arr, z...)
		} else {
			arr = append(arr, structField{
				field: x,
				tag:   tx,
			})
		}
	}
	return
''','''	n := t.NumFields()
	for i := 0; i < n; i++ {
		x := t.Field(i)
		tx, err := tag.Parse(t.Tag(i))
		if err != nil {
			return arr, err
		}
		if tx.Ignore || !x.Exported() {
			continue
		}
		st, inline := castInlineStruct(x, tx)
		if !inline {
			arr = append(arr, structField{field: x, tag: tx})
			continue
		}
		z, err := collectStructFields(st, p)
		if err != nil {
			return arr, err
		}
		arr = append(arr, z...)
	}
	return arr, nil
'''))
ref("more-types-resolve", ("internal/oapi/scan/types/scan.go",'''	tp, ok := r.points.findType(ptr)
	if !ok {
		return nil, errors.Errorf("failed to resolve %q", ptr.String())
	}
''','''	if tp, ok := r.points.findType(ptr); ok {
		return type2schema(tp, r.points, nil, tag.Tag{})
	}
	return nil, errors.Errorf("failed to resolve %q", ptr.String())
''','''	sch, err := type2schema(tp, r.points, path{}, tag.Tag{})
	return sch, err
''','','''	for _, ptr := range r.Pointers {
		url := ptr.URL
		if url.Scheme != "go" {
			continue
		}
		if pkg.Types.Path() != ptr.PkgPath() {
			continue
		}
		head, ok := ptr.Fragment.Head()
		if !ok {
			continue
		}
		obj := scope.Lookup(head)
		if obj == nil {
			continue
		}
		err := collectTypes(obj, &r.points)
		if err != nil {
			return errors.Wrapf(err, "failed to register type %q", obj.Type().String())
		}
	}

	return
''','''	here := pkg.Types.Path()
	for _, ptr := range r.Pointers {
		if ptr.Scheme != "go" || ptr.PkgPath() != here || ptr.Fragment.IsEmpty() {
			continue
		}
		head, _ := ptr.Fragment.Head()
		if obj := scope.Lookup(head); obj != nil {
			if err := collectTypes(obj, &r.points); err != nil {
				return errors.Wrapf(err, "failed to register type %q", obj.Type().String())
			}
		}
	}

	return nil
'''))
ref("more-pointers", ("internal/pointer/pointer.go",'''	x := make(Pointers)
	for k, v := range pp {
		x[k] = v
	}
	for k, v := range px {
		x[k] = v
	}
	return x
''','''	x := make(Pointers, len(pp)+len(px))
	for _, m := range []Pointers{pp, px} {
		for k, v := range m {
			x[k] = v
		}
	}
	return x
''','''	f := p.Fragment.Clone()
	return Pointer{URL: p.URL, Fragment: f}
''','''	p.Fragment = p.Fragment.Clone()
	return p
''','''	switch {
	case len(str) == 0:
		return Pointer{}, nil
	case str == "#":
		return Pointer{}, nil
	}

	var u *url.URL
	u, err = url.Parse(str)
	if err != nil {
		return
	}
	p.Fragment, err = NewFragment(u.Fragment)
	p.URL = *u
	return
''','''	if str == "" || str == "#" {
		return
	}
	u, err := url.Parse(str)
	if err != nil {
		return Pointer{}, err
	}
	f, err := NewFragment(u.Fragment)
	return Pointer{URL: *u, Fragment: f}, err
'''))
ref("more-tag", ("tag/tag.go",'''	if tag.Name == "-" {
		meta.Ignore = true
		return
	}
	if len(tag.Name) != 0 {
		meta.Name = tag.Name
	}
''','''	switch tag.Name {
	case "-":
		meta.Ignore = true
		return nil
	case "":
	default:
		meta.Name = tag.Name
	}
'''))
ref("more-collect", ("oapi.go",'''	for _, ref := range refs {
		s, ok := ref.Val.(string)
		if !ok {
			continue
		}
		p, err := pointer.Parse(s)
		if err != nil {
			return nil, err
		}
		pp = pp.Merge(pointer.NewPointers([]pointer.Pointer{p}))
	}
	return pp, nil
''','''	var found []pointer.Pointer
	for _, ref := range refs {
		if s, ok := ref.Val.(string); ok {
			p, err := pointer.Parse(s)
			if err != nil {
				return nil, err
			}
			found = append(found, p)
		}
	}
	return pp.Merge(pointer.NewPointers(found)), nil
'''))
CTN='internal/container/container.go'; MRG='internal/container/merge.go'; UTL='internal/container/utils.go'; SRT='internal/container/sort.go'
TAG='tag/tag.go'; ROOT='oapi.go'; INT='internal/oapi/oapi.go'; RSV='internal/oapi/resolver/resolver.go'; RTE='internal/route/route.go'
ref("next-merge-sorted", (MRG,'''		for key, value := range mmap {
			newPath := append(path, key)
''','''		keys := make([]string, 0, len(mmap))
		for key := range mmap {
			keys = append(keys, key)
		}
		sort.Strings(keys)
		for _, key := range keys {
			value := mmap[key]
			newPath := append(append([]string{}, path...), key)
''','''	"reflect"
''','''	"reflect"
	"sort"
'''))
ref("next-merge-collide", (MRG,'''	var recursiveFnc func(map''','''	collide := func(dest, src interface{}, at []string) error {
		xx, err := collisionFn(dest, src)
		if err != nil {
			return errors.Wrapf(err, "at %s", source.path)
		}
		_, err = c.c.Set(xx, at...)
		return err
	}

	var recursiveFnc func(map''','''			switch t := value.(type) {
			case map[string]interface{}:
				switch existingVal := existingData.(type) {
				case map[string]interface{}:
					err := recursiveFnc(t, newPath)
					if err != nil {
						return err
					}
				default:
					xx, err := collisionFn(existingVal, t)
					if err != nil {
						return errors.Wrapf(err, "at %s", source.path)
					}
					_, err = c.c.Set(xx, newPath...)
					if err != nil {
						return err
					}
				}
			default:
				xx, err := collisionFn(existingData, t)
				if err != nil {
					return errors.Wrapf(err, "at %s", source.path)
				}
				_, err = c.c.Set(xx, newPath...)
				if err != nil {
					return err
				}
			}
''','''			t, isMap := value.(map[string]interface{})
			if _, ok := existingData.(map[string]interface{}); ok && isMap {
				if err := recursiveFnc(t, newPath); err != nil {
					return err
				}
				continue
			}
			if err := collide(existingData, value, newPath); err != nil {
				return err
			}
'''))
ref("next-mmap-split", (UTL,'''		m := map[string]interface{}{}
		var keys []interface{}
		for k := range x {
			keys = append(keys, k)
		}
		// keys of several types may have the same text, as 1 and "1"
		sort.Slice(keys, func(i, j int) bool {
			return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
		})
		for _, k := range keys {
			v2 := x[k]
			switch k2 := k.(type) {
			case string: // Fast check if it's already a string
				m[k2] = mmap(v2)
			default:
				m[fmt.Sprint(k)] = mmap(v2)
			}
		}
		v = m
''','''		return textKeys(x)
''')
,(UTL,'''// mmap walks the given''','''// textKeys makes the keys of a map texts
func textKeys(x map[interface{}]interface{}) map[string]interface{} {
	var keys []interface{}
	for k := range x {
		keys = append(keys, k)
	}
	// keys of several types may have the same text, as 1 and "1"
	sort.Slice(keys, func(i, j int) bool {
		return fmt.Sprintf("%T", keys[i]) < fmt.Sprintf("%T", keys[j])
	})
	m := make(map[string]interface{}, len(keys))
	for _, k := range keys {
		name, ok := k.(string)
		if !ok {
			name = fmt.Sprint(k)
		}
		m[name] = mmap(x[k])
	}
	return m
}

// mmap walks the given'''))
ref("next-readfile", (CTN,'''	ext := filepath.Ext(file)
	switch ext {
	case ".yaml", ".yml":
		c, err = ReadYAML(data)
	case ".json":
		c, err = ReadJSON(data)
	default:
		err = errors.Errorf("failed to recognize extension %q for unmarshal", ext)
	}
	if err != nil {
		return
	}
	c.path = file
	return
}
''','''	read, err := reader(filepath.Ext(file))
	if err != nil {
		return Container{}, err
	}
	if c, err = read(data); err == nil {
		c.path = file
	}
	return c, err
}

func reader(ext string) (func([]byte) (Container, error), error) {
	readers := map[string]func([]byte) (Container, error){
		".yaml": ReadYAML,
		".yml":  ReadYAML,
		".json": ReadJSON,
	}
	if fn, ok := readers[ext]; ok {
		return fn, nil
	}
	return nil, errors.Errorf("failed to recognize extension %q for unmarshal", ext)
}
'''))
ref("next-children", (CTN,'''	data := c.Data()
	x := make(map[string]Container)
	switch data.(type) {
	case map[string]interface{}:
	case nil:
		return x, nil
	default:
		return nil, errors.Errorf("children map cannot be called on non-map type")
	}
''','''	data := c.Data()
	x := make(map[string]Container)
	if data == nil {
		return x, nil
	}
	if _, isMap := data.(map[string]interface{}); !isMap {
		return nil, errors.Errorf("children map cannot be called on non-map type")
	}
'''))
ref("next-tag-boolptr", (TAG,'''	x, ok := m.Options[tag]
	if !ok {
		return
	}
	if x == "" {
		*val = &ok
	} else {
		var y bool
		y, err = strconv.ParseBool(x)
		if err != nil {
			return
		}
		*val = &y
	}
	return nil
''','''	if _, ok := m.Options[tag]; !ok {
		return nil
	}
	var v bool
	if err = parseTagBool(m, tag, &v); err != nil {
		return err
	}
	*val = &v
	return nil
'''))
ref("next-tag-closures", (TAG,'''	errs := []error{
		parseTagBoolPtr(tag, "inline", &meta.Inline),
		parseTagBool(tag, "omitempty", &meta.OmitEmpty),
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return
''','''	if err = parseTagBoolPtr(tag, "inline", &meta.Inline); err != nil {
		return err
	}
	return parseTagBool(tag, "omitempty", &meta.OmitEmpty)
''','''	if err = parseJSONTag(tags, &meta); err != nil {
		return
	}
	if err = parseOAPITag(tags, &meta); err != nil {
		return
	}
	return
''','''	for _, parse := range []func(*structtag.Tags, *Tag) error{parseJSONTag, parseOAPITag} {
		if err = parse(tags, &meta); err != nil {
			return
		}
	}
	return
'''))
ref("next-tag-generic", (TAG,'''	if _, ok := m.Options[tag]; !ok {
		return nil
	}
	var v float64
	err := parseTagFloat(m, tag, &v)
	if err != nil {
		return err
	}
	*val = &v
	return nil
''','''	v := new(float64)
	if err := parseTagFloat(m, tag, v); err != nil {
		return err
	}
	if _, given := m.Options[tag]; given {
		*val = v
	}
	return nil
''','''	x, err := strconv.Atoi(v)
	if err != nil {
		return err
	}
	*val = int64(x)
	return nil
''','''	x, err := strconv.Atoi(v)
	if err == nil {
		*val = int64(x)
	}
	return err
'''))
ref("next-basic-limits", (TY,'''	switch s.Type {
	case spec.TypeNumber, spec.TypeInteger:
		if tg.Min != nil {
			s.Minimum = tg.Min
		}
		if tg.Max != nil {
			s.Maximum = tg.Max
		}
		if tg.EMin != nil {
			s.Minimum = tg.EMin
			s.ExclusiveMinimum = true
		}
		if tg.EMax != nil {
			s.Maximum = tg.EMax
			s.ExclusiveMaximum = true
		}
		if tg.MulOf != nil {
			s.MultipleOf = tg.MulOf
		}
	case spec.TypeString:
		if tg.MaxLen != nil {
			s.MaxLength = tg.MaxLen
		}
		if tg.MinLen != nil {
			s.MinLength = tg.MinLen
		}
		s.Pattern = tg.Pattern
	}

	return s, nil
}
''','''	limits(s, tg)
	return s, nil
}

func limits(s *spec.Schema, tg tag.Tag) {
	if s.Type == spec.TypeString {
		s.MinLength, s.MaxLength = tg.MinLen, tg.MaxLen
		s.Pattern = tg.Pattern
		return
	}
	if s.Type != spec.TypeNumber && s.Type != spec.TypeInteger {
		return
	}
	s.MultipleOf = tg.MulOf
	bound(&s.Minimum, &s.ExclusiveMinimum, tg.Min, tg.EMin)
	bound(&s.Maximum, &s.ExclusiveMaximum, tg.Max, tg.EMax)
}

func bound(to **float64, excl *bool, in, ex *float64) {
	switch {
	case ex != nil:
		*to, *excl = ex, true
	case in != nil:
		*to = in
	}
}
'''))
ref("next-basic-table", (TY,'''	zero := 0.
	switch t {
	case types.Float32:
		s = spec.Float32Property()
	case types.Float64:
		s = spec.Float64Property()
	case types.Uint, types.Uint32:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint8:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint16:
		s = spec.IntFmtProperty("int32")
		s.Minimum = &zero
	case types.Uint64:
		s = spec.IntFmtProperty("int64")
		s.Minimum = &zero
	case types.Int, types.Int32:
		s = spec.IntFmtProperty("int32")
	case types.Int8:
		s = spec.IntFmtProperty("int32")
	case types.Int16:
		s = spec.IntFmtProperty("int32")
	case types.Int64:
		s = spec.IntFmtProperty("int64")
	case types.Bool:
''','''	switch t {
	case types.Float32:
		s = spec.Float32Property()
	case types.Float64:
		s = spec.Float64Property()
	case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64,
		types.Int, types.Int8, types.Int16, types.Int32, types.Int64:
		format := "int32"
		if t == types.Int64 || t == types.Uint64 {
			format = "int64"
		}
		s = spec.IntFmtProperty(format)
		switch t {
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64:
			s.Minimum = new(float64)
		}
	case types.Bool:
'''))
ref("next-basic-names", (TY,'''	case "base64":
		s, err = basic2schema(types.String, tg)
		s.Format = "binary"
		return s, err
	case "uuid":
		s, err = basic2schema(types.String, tg)
		s.Format = "uuid"
		return s, err
	case "password":
		s, err = basic2schema(types.String, tg)
		s.Format = "password"
		return s, err
''','''	case "base64", "uuid", "password":
		s, err = basic2schema(types.String, tg)
		if err != nil {
			return nil, err
		}
		s.Format = y
		if y == "base64" {
			s.Format = "binary"
		}
		return s, nil
'''))
ref("next-lists", (TY,'''	s = &spec.Schema{}
	s.Type = spec.TypeArray
	s.Items = sch
	s.Nullable = true

	s.MinItems = tg.MinItems
	s.MaxItems = tg.MaxItems
	s.UniqueItems = tg.UniqItems
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	return
}
''','''	return list2schema(sch, true, tg), nil
}

func list2schema(items *spec.Schema, nullable bool, tg tag.Tag) *spec.Schema {
	if tg.Nullable != nil {
		nullable = *tg.Nullable
	}
	return &spec.Schema{
		Type:        spec.TypeArray,
		Items:       items,
		Nullable:    nullable,
		MinItems:    tg.MinItems,
		MaxItems:    tg.MaxItems,
		UniqueItems: tg.UniqItems,
	}
}
''','''	s = &spec.Schema{}
	s.Type = spec.TypeArray
	s.Items = sch

	s.MinItems = tg.MinItems
	s.MaxItems = tg.MaxItems

	if t.Len() > 0 {
		x := t.Len()
		s.MaxItems = &x
	}

	s.UniqueItems = tg.UniqItems
	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	return
}
''','''	s = list2schema(sch, false, tg)
	if n := t.Len(); n > 0 {
		s.MaxItems = &n
	}
	return s, nil
}
'''))
ref("next-pointer2", (TY,'''	s.Nullable = true

	if tg.Nullable != nil {
		s.Nullable = *tg.Nullable
	}

	if s.Ref == nil {
		return s, nil
	}

	if !s.Nullable {
		return s, nil
	}

	s.Nullable = false

	s = spec.OneSchema(s, &spec.Schema{
		Type:     spec.TypeObject,
		Nullable: true,
	})

	return s, nil
''','''	nullable := tg.Nullable == nil || *tg.Nullable
	if s.Ref != nil && nullable {
		s.Nullable = false
		null := &spec.Schema{Type: spec.TypeObject, Nullable: true}
		return spec.OneSchema(s, null), nil
	}
	s.Nullable = nullable
	return s, nil
'''))
ref("next-type2-ifs", (TY,'''	switch u := t.(type) {

	// So struct will be converted into object
	case *types.Struct:
		if len(tp) == 1 {
			return struct2schema(u, m, tp)
		}
		return reference2schema(u, m, tp, tg)

	case *types.Array:
		return array2schema(u, m, tp, tg)
''','''	if u, ok := t.(*types.Struct); ok {
		// So struct will be converted into object
		if len(tp) > 1 {
			return reference2schema(u, m, tp, tg)
		}
		return struct2schema(u, m, tp)
	}

	switch u := t.(type) {

	case *types.Array:
		return array2schema(u, m, tp, tg)
'''))
ref("next-inline-fields", (TY,'''		st, ok := castInlineStruct(x, tx)
		if ok {
			var z []structField
			z, err = collectStructFields(st, p)
			if err != nil {
				return
			}
			arr = append(arr, z...)
		} else {
			arr = append(arr, structField{
				field: x,
				tag:   tx,
			})
		}
''','''		z := []structField{{field: x, tag: tx}}
		if st, ok := castInlineStruct(x, tx); ok {
			if z, err = collectStructFields(st, p); err != nil {
				return
			}
		}
		arr = append(arr, z...)
''','''	st, ok := tx.(*types.Struct)
	if ok {
		if tg.Inline != nil {
			ok = *tg.Inline
		} else {
			ok = t.Embedded()
		}
	}
	return st, ok
''','''	inline := t.Embedded()
	if tg.Inline != nil {
		inline = *tg.Inline
	}
	st, ok := tx.(*types.Struct)
	return st, ok && inline
'''))
ref("next-points-has", (PT,'''	return s.filter(p2.equal).Len() > 0
''','''	for i := range s {
		if s[i].equal(p2) {
			return true
		}
	}
	return false
''','''	if s[i].Fragment.Len() != s[j].Fragment.Len() {
		return s[i].Fragment.Len() < s[j].Fragment.Len()
	}
	return s[i].String() < s[j].String()
''','''	a, b := s[i], s[j]
	if n, m := a.Fragment.Len(), b.Fragment.Len(); n != m {
		return n < m
	}
	return a.String() < b.String()
'''))
ref("next-pick-min", (PT,'''	sort.Sort(pp)
	return pp[0], true
''','''	best := 0
	for i := 1; i < len(pp); i++ {
		if pp.Less(i, best) {
			best = i
		}
	}
	return pp[best], true
'''))
ref("next-config-share", ("internal/oapi/config/config.go",'''	cx, err := container.ReadYAML(data)
	if err != nil {
		return Config{}, err
	}
	err = extends(cx, "")
	if err != nil {
		return
	}
	err = decode(cx, &c)
	return
}
''','''	cx, err := container.ReadYAML(data)
	if err != nil {
		return Config{}, err
	}
	return load(cx, "")
}

// load makes the configuration of a document, paths are relative to dir.
func load(cx container.Container, dir string) (c Config, err error) {
	if err = extends(cx, dir); err != nil {
		return Config{}, err
	}
	err = decode(cx, &c)
	return c, err
}
''','''	cx, err := container.ReadJSON(data)
	if err != nil {
		return
	}
	err = extends(cx, "")
	if err != nil {
		return
	}
	err = decode(cx, &c)
	if err != nil {
		return
	}
	return
''','''	cx, err := container.ReadJSON(data)
	if err != nil {
		return
	}
	return load(cx, "")
''','''	err = extends(cx, filepath.Dir(file))
	if err != nil {
		return
	}
	err = decode(cx, &c)
	if err != nil {
		return
	}
	c.FilePath = file
''','''	if c, err = load(cx, filepath.Dir(file)); err != nil {
		return
	}
	c.FilePath = file
'''))
ref("next-extends-value", ("internal/oapi/config/config.go",'''	if !c.ExistsP("extends") {
		return
	}
	p, ok := c.Path("extends").Data().(string)
	if !ok {
		return
	}
	if !filepath.IsAbs(p) {
		p = filepath.Join(fp, p)
	}
	ny, err := container.ReadFile(p)
	if err != nil {
		return
	}
	return c.Merge(ny, container.MergeDefault)
''','''	p, ok := c.Path("extends").Data().(string)
	if !ok {
		return nil
	}
	file := p
	if !filepath.IsAbs(file) {
		file = filepath.Join(fp, file)
	}
	base, err := container.ReadFile(file)
	if err == nil {
		err = c.Merge(base, container.MergeDefault)
	}
	return err
'''))
ref("next-full", ("cmd/oapi/config.go",'''	if len(cfg.Format) == 0 {
		cfg.Format = "json:pretty"
	}
	if len(ff.Format) > 0 {
		cfg.Format = ff.Format
	}
''','''	cfg.Format = first(ff.Format, cfg.Format, "json:pretty")
''','''func toOutput(''','''// first returns the first text which is not empty.
func first(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func toOutput(''','''	output := "stdout"
	if len(cfg.Output) > 0 {
		output = toOutput(cfg.Output, cfg.Dir)
	}
	if len(ff.Output) > 0 {
		output = toOutput(ff.Output, wd)
	}
	cfg.Output = output
''','''	switch {
	case len(ff.Output) > 0:
		cfg.Output = toOutput(ff.Output, wd)
	case len(cfg.Output) > 0:
		cfg.Output = toOutput(cfg.Output, cfg.Dir)
	default:
		cfg.Output = "stdout"
	}
'''))
ref("next-cli-options", ("cmd/oapi/scan.go",'''	opts := []oapi.Option{
		oapi.WithLog(log),
	}

	// execution directory
	if len(cfg.Dir) > 0 {
		opts = append(opts, oapi.WithDir(cfg.Dir))
	}

	if len(cfg.Overrides) > 0 {
		opts = append(opts, oapi.WithOverride(cfg.Overrides))
	}

	if len(cfg.Operations) > 0 {
		opts = append(opts, oapi.WithDefOps(cfg.Operations))
	}
''','''	opts := []oapi.Option{
		oapi.WithLog(log),
		oapi.WithOverride(cfg.Overrides),
		oapi.WithDefOps(cfg.Operations),
	}

	// execution directory
	if cfg.Dir != "" {
		opts = append(opts, oapi.WithDir(cfg.Dir))
	}
'''))
ref("next-format", (ROOT,'''	case "go":
		data, err = cont.MarshalJSON()
		if err != nil {
			return nil, err
		}
		data, err = produceGoFile(tpldata{
			PkgName:     "main",
			OpenAPIJson: string(data),
		})
		return
	default:
		return nil, errors.New("unknown format")
	}
''','''	case "go":
		return formatGo(cont)
	}
	return nil, errors.New("unknown format")
}

func formatGo(cont container.Sorter) ([]byte, error) {
	data, err := cont.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return produceGoFile(tpldata{PkgName: "main", OpenAPIJson: string(data)})
'''))
ref("next-exports-get", (RSV,'''	for _, x := range e {
		if x.String() == p.String() {
			return x, true
		}
	}
	return Pointer{}, false
''','''	want := p.String()
	for i := range e {
		if e[i].String() != want {
			continue
		}
		return e[i], true
	}
	return Pointer{}, false
'''))
ref("next-resolver-set", (RSV,'''	e := EntityValue{
		Entity: ep.Entity,
		Value:  value,
	}
	err = SetEntity(r.con, key, e)
	if err != nil {
		return
	}
	return UpdatePtrToLocal(cx, key, e.Fragment())
''','''	if err = r.con.SetP(ep.Entity.Path(), value); err != nil {
		return err
	}
	return UpdatePtrToLocal(cx, key, ep.Entity.Fragment())
''','''	r := &resolver{
		con: con,
		exp: exp,
		res: fn,
	}
	return r.resolve()
''','''	r := resolver{con: con, exp: exp, res: fn}
	return r.iterator(con, nil, 0)
''','''func (r resolver) resolve() (container.Container, error) {
	return r.iterator(r.con, path{}, 0)
}
''',''))

ref("next-std", ("internal/pkgutil/util.go",'''var stdpkgs = make(map[string]struct{})
''','''var stdpkgs = map[string]bool{}
''','''stdpkgs[p.PkgPath] = struct{}{}''','''stdpkgs[p.PkgPath] = true''','''	_, ok := stdpkgs[pkg.PkgPath]
	return ok
''','''	return stdpkgs[pkg.PkgPath]
''','''	if len(errs) > 0 {
		return newSingleError(errs)
	}

	return nil
''','''	if len(errs) == 0 {
		return nil
	}
	return newSingleError(errs)
'''))
ref("next-level-map", (LG,'''	switch strings.ToLower(lvl) {
	case "panic":
		return PanicLevel, nil
	case "fatal":
		return FatalLevel, nil
	case "error":
		return ErrorLevel, nil
	case "warn", "warning":
		return WarnLevel, nil
	case "info":
		return InfoLevel, nil
	case "debug":
		return DebugLevel, nil
	case "trace":
		return TraceLevel, nil
	}

	var l Level
	return l, fmt.Errorf("not a valid logrus Level: %q", lvl)
''','''	if l, ok := levels[strings.ToLower(lvl)]; ok {
		return l, nil
	}
	return 0, fmt.Errorf("not a valid logrus Level: %q", lvl)
''','''// ParseLevel takes''','''var levels = map[string]Level{
	"panic":   PanicLevel,
	"fatal":   FatalLevel,
	"error":   ErrorLevel,
	"warn":    WarnLevel,
	"warning": WarnLevel,
	"info":    InfoLevel,
	"debug":   DebugLevel,
	"trace":   TraceLevel,
}

// ParseLevel takes'''))
ref("next-route-cut", (RTE,'''	for _, m := range methods {
		met := strings.ToLower(m)
		if strings.HasPrefix(strings.ToLower(pattern), met+":") {
			fm = met
			pattern = pattern[len(m)+1:]
			break
		}
	}
''','''	if i := strings.IndexByte(pattern, ':'); i > 0 && isMethod(pattern[:i]) {
		fm, pattern = pattern[:i], pattern[i+1:]
	}
''','''func compileCached(''','''func isMethod(s string) bool {
	for _, m := range methods {
		if strings.EqualFold(m, s) {
			return true
		}
	}
	return false
}

func compileCached('''))
ref("next-isroute-builder", (RTE,'''	var parts []string
	var last int
''','''	var sb strings.Builder
	var last int
''','''		parts = append(parts, regexp.QuoteMeta(pattern[last:i]))
		switch {
		case pattern[i] == '{' && pattern[j-1] == '}':
			parts = append(parts, "([^/]+)")
		case pattern[i] == '*':
			parts = append(parts, "(.*)")
		default:
			parts = append(parts, pattern[i:j])
		}
''','''		sb.WriteString(regexp.QuoteMeta(pattern[last:i]))
		if pattern[i] == '*' {
			sb.WriteString("(.*)")
		} else {
			sb.WriteString("([^/]+)")
		}
''','''	pettern := strings.Join(append(parts, regexp.QuoteMeta(pattern[last:])), "")
	reg, err := compileCached(pettern)
''','''	sb.WriteString(regexp.QuoteMeta(pattern[last:]))
	reg, err := compileCached(sb.String())
'''))
ref("next-less", (SRT,'''	if mi.Index != x.Index {
		return mi.Index < x.Index
	}
	return mi.Key < x.Key
''','''	switch {
	case mi.Index < x.Index:
		return true
	case mi.Index > x.Index:
		return false
	default:
		return mi.Key < x.Key
	}
''','''	a := make(MapSlice, len(ms))
	copy(a, ms)
	sort.Sort(a)
	return a
''','''	a := append(MapSlice{}, ms...)
	sort.Slice(a, func(i, j int) bool { return a[i].less(a[j]) })
	return a
'''))
ref("next-sorter", (SRT,'''		dd, ok := data.(map[string]interface{})
		if !ok {
			return data, nil
		}
		var ms MapSlice
		for k, v := range dd {
			ms = append(ms, MapItem{
				Key:   k,
				Val:   v,
				Index: indexOf(k, order),
			})

		}
		sort.Sort(ms)
		return ms, nil
	}
''','''		if dd, ok := data.(map[string]interface{}); ok {
			return ordered(dd, order), nil
		}
		return data, nil
	}
}

func ordered(dd map[string]interface{}, order []string) MapSlice {
	ms := make(MapSlice, 0, len(dd))
	for k, v := range dd {
		ms = append(ms, MapItem{Key: k, Val: v, Index: indexOf(k, order)})
	}
	return ms.Sort()
'''))
ref("next-root-section", (INT,'''		s := container.New()

		for _, y := range []container.Container{c.Path(x.key), r.Path(x.key)} {
			if y.IsNil() {
				continue
			}

			p, err := container.Make(map[string]interface{}{
				x.key: y.Data(),
			})
			if err != nil {
				return err
			}

			err = s.Merge(p, x.merge)
			if err != nil {
				return err
			}
		}

		err := c.Merge(s, container.MergeOverride)
		if err != nil {
			return err
		}
	}
	return nil
}
''','''		if err := section(c, r, x.key, x.merge); err != nil {
			return err
		}
	}
	return nil
}

// section merges one section of both documents into that of the first.
func section(c, r container.Container, key string, merge container.Merger) error {
	s := container.New()
	add := func(y container.Container) error {
		if y.IsNil() {
			return nil
		}
		p, err := container.Make(map[string]interface{}{key: y.Data()})
		if err != nil {
			return err
		}
		return s.Merge(p, merge)
	}
	if err := add(c.Path(key)); err != nil {
		return err
	}
	if err := add(r.Path(key)); err != nil {
		return err
	}
	return c.Merge(s, container.MergeOverride)
}
'''))
ref("next-ismethod", (INT,'''	switch key {
	case "get", "put", "post", "delete", "options", "head", "patch", "trace":
		return true
	}
	return false
''','''	return operations[key]
''','''// isMethod reports''','''var operations = map[string]bool{
	"get": true, "put": true, "post": true, "delete": true,
	"options": true, "head": true, "patch": true, "trace": true,
}

// isMethod reports'''))
ref("next-newoapi", (ROOT,'''	x = OAPI{c: c}
	data, err := c.MarshalJSON()
	if err != nil {
		return
	}
	err = json.Unmarshal(data, &x.o)
	return x, err
''','''	x.c = c
	data, err := c.MarshalJSON()
	if err == nil {
		err = json.Unmarshal(data, &x.o)
	}
	return x, err
''','''	if opts.dir != nil {
		dir = *opts.dir
	} else {
		dir, err = os.Getwd()
	}
	if err != nil {
		err = errors.Wrap(err, "os")
		return
	}
	return
''','''	if opts.dir != nil {
		return *opts.dir, nil
	}
	if dir, err = os.Getwd(); err != nil {
		return "", errors.Wrap(err, "os")
	}
	return dir, nil
'''))
ref("next-callback", (ROOT,'''	cnt, err := resolver.Resolve(c, exports, func(ptr pointer.Pointer) (e spec.Entiter, err error) {
		if ovrd, ok := opts.override[ptr.String()]; ok {
			return ovrd, nil
		}
		switch ptr.Scheme {
		case "go":
			e, err = tps.Resolve(ptr)
		default:
			err = errors.New("unknown protocol to resolve")
		}
		return
	})
	if err != nil {
		return
	}

	return newOAPI(cnt)
}
''','''	target := &targets{override: opts.override, types: tps}
	cnt, err := resolver.Resolve(c, exports, target.resolve)
	if err != nil {
		return
	}

	return newOAPI(cnt)
}

// targets knows what references stand for.
type targets struct {
	override map[string]spec.Schema
	types    *types.Scanner
}

func (t *targets) resolve(ptr pointer.Pointer) (spec.Entiter, error) {
	ovrd, ok := t.override[ptr.String()]
	if ok {
		return ovrd, nil
	}
	if ptr.Scheme != "go" {
		return nil, errors.New("unknown protocol to resolve")
	}
	return t.types.Resolve(ptr)
}
'''))
SCN='internal/oapi/scan/types/scan.go'
ref("wide-pick", (PT,'pick(','choose('), (TY,'pick(','choose('))
ref("wide-points", (PT,'(s points)','(s placeList)','type points []','type placeList []','points{}','placeList{}','.(points)','.(placeList)',') points {',') placeList {','(pp points)','(pp placeList)','func(types.Type, points)','func(types.Type, placeList)'))
ref("wide-receivers", (PT,'func (tp pointmap)','func (tp *pointmap)'))
ref("wide-stable", (PT,'sort.Sort(pp)','sort.Stable(pp)'), (CTN,'	sort.Sort(a)\n','	sort.Stable(a)\n'), (SRT,'	sort.Sort(a)\n','	sort.Stable(a)\n'))
ref("wide-sortslice", (PT,'	sort.Sort(pp)\n','	sort.Slice(pp, pp.Less)\n'), (CTN,'	sort.Sort(a)\n','	sort.Slice(a, func(i, j int) bool { return a[i].path < a[j].path })\n'))
ref("wide-extract-stack", (UTL,'''	var walk func(path []string, v interface{})
	walk = func(path []string, v interface{}) {
		path = path[:len(path):len(path)]
		switch x := v.(type) {
		case map[string]interface{}:
			keys := make([]string, 0, len(x))
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(append(path, k), x[k])
			}
		case []interface{}:
			for i, e := range x {
				walk(append(path, strconv.Itoa(i)), e)
			}
		default:
			if path[len(path)-1] != key {
				return
			}
			pp = append(pp, MapItem{
				Key:   SliceToDotPath(path),
				Val:   v,
				Index: len(pp),
			})
		}
	}
	walk(nil, c.Data())
	return pp, nil
}
''','''	extract(key, nil, c.Data(), &pp)
	return pp, nil
}

// extract adds what is found in v, which is at path.
func extract(key string, path []string, v interface{}, pp *MapSlice) {
	child := func(name string) []string {
		return append(append(make([]string, 0, len(path)+1), path...), name)
	}
	switch x := v.(type) {
	case map[string]interface{}:
		for _, k := range sortedKeys(x) {
			extract(key, child(k), x[k], pp)
		}
		return
	case []interface{}:
		for i := range x {
			extract(key, child(strconv.Itoa(i)), x[i], pp)
		}
		return
	}
	if n := len(path); n > 0 && path[n-1] == key {
		*pp = append(*pp, MapItem{Key: SliceToDotPath(path), Val: v, Index: len(*pp)})
	}
}

func sortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
'''))
ref("wide-walk-struct", (TY,'''	for _, e := range next {
		err = walk(e.p, e.t, p, m)
		if err != nil {
			return
		}
		named, ok := e.t.(*types.Named)
		if ok && named.Obj().Pkg() != nil {
			np := newPoint(named.Obj())
			err = walk(np, e.t, p, m)
		}
		if err != nil {
			return
		}
	}

	return
''','''	for len(next) > 0 {
		e := next[0]
		next = next[1:]

		places := []point{e.p}
		if named, ok := e.t.(*types.Named); ok && named.Obj().Pkg() != nil {
			places = append(places, newPoint(named.Obj()))
		}
		for _, at := range places {
			if err = walk(at, e.t, p, m); err != nil {
				return err
			}
		}
	}

	return nil
'''))
ref("wide-wrap-errors", (RSV,'''		nc, err := r.res.call(p)
		if err != nil {
			return zero, err
		}
''','''		nc, err := r.res.call(p)
		if err != nil {
			return zero, errors.Wrapf(err, "failed to resolve %s", s)
		}
''','''	"github.com/buypal/oapi-go/internal/pointer"
)''','''	"github.com/buypal/oapi-go/internal/pointer"
	"github.com/pkg/errors"
)'''), ("internal/oapi/scan/specs/scan.go",'''	ff, err := container.ReadDir(dir, r.patterns...)
	if err != nil {
		return err
	}
''','''	ff, err := container.ReadDir(dir, r.patterns...)
	if err != nil {
		return fmt.Errorf("directory %s: %w", dir, err)
	}
''','''	"github.com/buypal/oapi-go/internal/container"
''','''	"fmt"

	"github.com/buypal/oapi-go/internal/container"
'''))
ref("wide-cli-dir", ("cmd/oapi/config.go",'''	// directory of execution
	dir := wd
	if len(cfg.Dir) > 0 {
		dir = toAbsPath(cfg.Dir, filepath.Dir(cfg.FilePath))
	}
''','''	// directory of execution
	dir := ff.directory(cfg, wd)
''','''	// if flags are present let them overwrite
	if len(ff.Dir) > 0 {
		dir = toAbsPath(ff.Dir, wd)
	}
	cfg.Dir = dir
''','''	cfg.Dir = dir
''','''func toOutput(''','''// directory is where to scan: flags overwrite the configuration
func (ff Config) directory(cfg config.Config, wd string) string {
	if ff.Dir != "" {
		return toAbsPath(ff.Dir, wd)
	}
	if cfg.Dir == "" {
		return wd
	}
	return toAbsPath(cfg.Dir, filepath.Dir(cfg.FilePath))
}

func toOutput('''))
MM = "cmd/oapi/main.go"
ref("wide-main-open", (MM,'''	var w io.Writer

	switch config.Output {
	case "stdout", "":
		w = os.Stdout
	case "stderr":
		w = os.Stderr
	default:
		w, err = os.OpenFile(config.Output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
		if err != nil {
			fatal(log, "%s", err.Error())
		}
	}

	_, err = io.Copy(w, bytes.NewBuffer(data))
	if err != nil {
		fatal(log, "%s", err.Error())
	}
}
''','''	if err = write(config.Output, data); err != nil {
		fatal(log, "%s", err.Error())
	}
}

// write puts the document where it belongs
func write(output string, data []byte) error {
	var w io.Writer
	switch output {
	case "stdout", "":
		w = os.Stdout
	case "stderr":
		w = os.Stderr
	default:
		f, err := os.OpenFile(output, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
		if err != nil {
			return err
		}
		w = f
	}
	_, err := w.Write(data)
	return err
}
''','''	"bytes"
''',''))
ref("wide-schema-ptr", ("internal/oapi/scan/cmds/schema.go",'''	invalid := func(a bool, s string) bool {
		return !a || len(s) == 0
	}

	makePtr := func(a string) (pointer.Pointer, error) {
		if strings.Contains(a, "://") || strings.Contains(a, "#") {
			return pointer.Parse(a)
		}
		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
	}
''','''	invalid := func(a bool, s string) bool {
		return !(a && s != "")
	}
	makePtr := cmd.pointerTo
''','''// NewCmdSchema creates''','''// pointerTo makes a pointer of an argument.
func (c CmdBase) pointerTo(a string) (pointer.Pointer, error) {
	isPtr := strings.Contains(a, "#") || strings.Contains(a, "://")
	if !isPtr {
		return pointer.NewGoPointer(c.pkg.Types.Path(), a)
	}
	return pointer.Parse(a)
}

// NewCmdSchema creates'''))
ref("wide-tag-option", (TAG,'''	v, ok := m.Options[tag]
	if !ok {
		return nil
	}
''','''	v, ok := option(m, tag)
	if !ok {
		return nil
	}
''','''func parseTagFloat(''','''func option(m *tagparser.Tag, name string) (string, bool) {
	if m == nil || m.Options == nil {
		return "", false
	}
	v, ok := m.Options[name]
	return v, ok
}

func parseTagFloat('''))
ref("wide-paths-item", (INT,'''		var mx map[string]container.Container
		mx, err = methods.ChildrenMap()
		if err != nil {
			return
		}
		for m, obj := range mx {
			if !isMethod(m) {
				continue
			}
			ff = append(ff, FlattenPath{
				Method:    m,
				Path:      path,
				Operation: obj,
				Key: container.SliceToDotPath([]string{
					"paths", path, m,
				}),
			})
		}
	}
	return
}
''','''		ops, err := pathOperations(path, methods)
		if err != nil {
			return nil, err
		}
		ff = append(ff, ops...)
	}
	return ff, nil
}

// pathOperations lists the operations of one path item.
func pathOperations(path string, item container.Container) (FlattenPaths, error) {
	children, err := item.ChildrenMap()
	if err != nil {
		return nil, err
	}
	ops := make(FlattenPaths, 0, len(children))
	for method, op := range children {
		if isMethod(method) {
			ops = append(ops, FlattenPath{
				Method:    method,
				Path:      path,
				Operation: op,
				Key:       container.SliceToDotPath([]string{"paths", path, method}),
			})
		}
	}
	return ops, nil
}
'''))
ref("wide-merge-list", (CTN,'''	c := New()
	for _, x := range cc {
		err := c.Merge(x, unlessSame(fn))
		if err != nil {
			return Container{}, err
		}
	}
	return c, nil
''','''	c, merge := New(), unlessSame(fn)
	for i := range cc {
		if err := c.Merge(cc[i], merge); err != nil {
			return Container{}, err
		}
	}
	return c, nil
''','''	for _, m := range ff {
		c, err := ReadFile(m)
		if err != nil {
			return cc, err
		}
		cc = append(cc, c)
	}

	return
''','''	cc = make(Containers, 0, len(ff))
	for i := 0; i < len(ff); i++ {
		c, err := ReadFile(ff[i])
		if err != nil {
			return nil, err
		}
		cc = append(cc, c)
	}
	return cc, nil
'''))
ref("wide-pkg-visit", ("internal/pkgutil/util.go",'''		paths := make([]string, 0, len(pkg.Imports))
		for path := range pkg.Imports {
			paths = append(paths, path)
		}
		sort.Strings(paths) // Imports is a map, this makes visit stable
		for _, path := range paths {
			visit(pkg.Imports[path])
		}

		if err := fn.Scan(pkg); err != nil {
			errs = append(errs, err)
			return
		}
''','''		for _, path := range importPaths(pkg) {
			visit(pkg.Imports[path])
		}

		if err := fn.Scan(pkg); err != nil {
			errs = append(errs, err)
		}
''','''// IsStdLibPkg reposrt''','''// importPaths lists what a package imports, in order
func importPaths(pkg *packages.Package) (paths []string) {
	for path := range pkg.Imports {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	return paths
}

// IsStdLibPkg reposrt'''))
ref("wide-fields-required", (TY,'''		name := x.field.Name()
		if len(x.tag.Name) > 0 {
			name = x.tag.Name
		}

		s.Properties[name] = pschema
''','''		name := x.name()
		s.Properties[name] = pschema
''','''func collectStructFields(''','''// name of the property
func (f structField) name() string {
	if f.tag.Name != "" {
		return f.tag.Name
	}
	return f.field.Name()
}

func collectStructFields('''))
ref("wide-scan-unnamed", (ROOT,'''	cnt, err := resolver.Resolve(c, exports, func(''','''	done := func(c container.Container) (OAPI, error) {
		return newOAPI(c)
	}

	cnt, err := resolver.Resolve(c, exports, func(''','''	return newOAPI(cnt)
}

// collect''','''	return done(cnt)
}

// collect''','''	pp := make(pointer.Pointers)
	pp = pp.Merge(cmdsScanner.Commands.Pointers())
	pp = pp.Merge(specsScanner.Pointers)
	pp, err = collectPointers(pp, c)
	if err != nil {
		return
	}
	for _, ovrd := range opts.override {
		pp, err = collectPointers(pp, ovrd)
		if err != nil {
			return
		}
	}
''','''	pp := cmdsScanner.Commands.Pointers().Merge(specsScanner.Pointers)
	if pp, err = collectPointers(pp, c); err != nil {
		return
	}
	for key := range opts.override {
		if pp, err = collectPointers(pp, opts.override[key]); err != nil {
			return
		}
	}
'''))
