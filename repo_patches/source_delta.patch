From b06ac7dd198de2fade00c49316e7f954d8a74f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:57 +0000
Subject: [PATCH 01/43] fix: release the config lock when loading a config
 fails

A config that could not be loaded left its lock, stored in the shared cache
of the session, locked forever so that all subsequent lookups in the same
session would hang.
---
 session/invocation.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index e1233b8..8eb5539 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -94,16 +94,29 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 			// The loaded value is a lock. Wait for new config to be stored in place of
 			// this lock
 			lock.RLock()
-			val, _ := sc.Load(cp)
-			conf = val.(api.Config)
+			val, stored := sc.Load(cp)
 			lock.RUnlock()
+			if !stored {
+				// The load failed. Try again
+				return ic.Config(configPath, moduleName)
+			}
+			conf = val.(api.Config)
 		} else {
 			conf = lv.(api.Config)
 		}
 	} else {
-		conf = config.New(configPath)
-		sc.Store(cp, conf)
-		myLock.Unlock()
+		// The lock must be released, and removed when no config was stored, also when the
+		// load panics. Subsequent attempts to load the config will otherwise block forever.
+		func() {
+			defer func() {
+				if conf == nil {
+					sc.Delete(lc)
+				}
+				myLock.Unlock()
+			}()
+			conf = config.New(configPath)
+			sc.Store(cp, conf)
+		}()
 	}
 	rc := Resolve(ic, conf, moduleName)
 	ic.configs[configPath] = rc
-- 
2.43.0


From 822797b318dba3f4fb8d56d43536b65ca156e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 02/43] fix: detect recursive lookups and recursive scope
 variables

Data where a key is looked up while it is being resolved, or a scope variable
that refers to itself, caused a stack overflow that terminated the process.
---
 session/interpolate.go |  4 +++-
 session/invocation.go  | 16 ++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index 565b8c7..fa07c0d 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -161,7 +161,9 @@ func (ic *ivContext) InterpolateString(str string, allowMethods bool) (dgo.Value
 func (ic *ivContext) InterpolateInScope(expr string, allowMethods bool) dgo.Value {
 	key := api.NewKey(expr)
 	if val := ic.Scope().Get(key.Root()); val != nil {
-		val, _ = ic.doInterpolate(val, allowMethods)
+		// The name is made distinct from that of a lookup key since a variable may be resolved by looking up a key
+		// with the same name.
+		val, _ = ic.forName(`%{`+key.Root()+`}`).doInterpolate(val, allowMethods)
 		return key.Dig(ic, val)
 	}
 	return nil
diff --git a/session/invocation.go b/session/invocation.go
index 8eb5539..c5e4335 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -262,15 +262,27 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 		})
 	}
 
-	v := ic.TopProvider()(ic.ServerContext(options), rootKey)
+	lic := ic.forName(key.Source())
+	v := lic.TopProvider()(lic.ServerContext(options), rootKey)
 	if v != nil {
-		dc := ic.ForData()
+		dc := lic.ForData()
 		v = dc.Interpolate(v, true)
 		v = key.Dig(dc, v)
 	}
 	return v
 }
 
+// forName returns a copy of this invocation where the given name has been added to the stack of names that are
+// currently being resolved. It panics if the name is already on that stack.
+func (ic *ivContext) forName(name string) *ivContext {
+	if util.ContainsString(ic.nameStack, name) {
+		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
+	}
+	lic := *ic
+	lic.nameStack = append(append(make([]string, 0, len(ic.nameStack)+1), ic.nameStack...), name)
+	return &lic
+}
+
 func (ic *ivContext) WithKey(key api.Key, actor dgo.Producer) dgo.Value {
 	if util.ContainsString(ic.nameStack, key.Source()) {
 		panic(fmt.Errorf(`recursive lookup detected in [%s]`, strings.Join(ic.nameStack, `, `)))
-- 
2.43.0


From db7d8c3e6ad8daa74401c9955cfab701ce5d54a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 03/43] fix: let unique merge remove duplicates when only one
 source has a value

The duplicates were retained when there were several sources but only one of
them had a value for the key.
---
 merge/strategy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/merge/strategy.go b/merge/strategy.go
index 677184b..0ed25b1 100644
--- a/merge/strategy.go
+++ b/merge/strategy.go
@@ -164,7 +164,7 @@ func (d *unique) mergeSingle(rv reflect.Value, vf func(l interface{}) dgo.Value)
 
 func (d *unique) convertValue(v dgo.Value) dgo.Value {
 	if av, ok := v.(dgo.Array); ok {
-		return av.Flatten()
+		return av.Flatten().Unique()
 	}
 	return vf.Values(v)
 }
-- 
2.43.0


From ce9d69f5e694413bd69f7df92cf066d66ad84e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 04/43] fix: never parse a quoted key segment as an index

A quoted segment consisting of digits was a string when it was the last
segment of the key but became an index when it was followed by other segments.
---
 api/key.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/api/key.go b/api/key.go
index 5104384..b8e2b31 100644
--- a/api/key.go
+++ b/api/key.go
@@ -45,7 +45,7 @@ type (
 // NewKey parses the given string into a Key
 func NewKey(str string) Key {
 	b := bytes.NewBufferString(``)
-	return &key{str, parseUnquoted(b, str, str, []interface{}{})}
+	return &key{str, parseUnquoted(b, false, str, str, []interface{}{})}
 }
 
 var keyType = tf.NewNamed(`hiera.key`,
@@ -145,13 +145,16 @@ func (k *key) String() string {
 	return k.Type().(dgo.NamedType).ValueString(k)
 }
 
-func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []interface{} {
+// parseUnquoted parses parts that aren't quoted. The quoted argument is true when the part in the given buffer is quoted
+func parseUnquoted(b *bytes.Buffer, quoted bool, key, part string, parts []interface{}) []interface{} {
 	mungedPart := func(ix int, part string) interface{} {
-		if i, err := strconv.ParseInt(part, 10, 32); err == nil {
-			if ix == 0 {
-				panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
+		if !quoted {
+			if i, err := strconv.ParseInt(part, 10, 32); err == nil {
+				if ix == 0 {
+					panic(fmt.Errorf(`key '%s' first segment cannot be an index`, key))
+				}
+				return int(i)
 			}
-			return int(i)
 		}
 		if part == `` {
 			panic(fmt.Errorf(`key '%s' contains an empty segment`, key))
@@ -166,6 +169,7 @@ func parseUnquoted(b *bytes.Buffer, key, part string, parts []interface{}) []int
 		case '.':
 			parts = append(parts, mungedPart(len(parts), b.String()))
 			b.Reset()
+			quoted = false
 		default:
 			_, _ = b.WriteRune(c)
 		}
@@ -179,7 +183,7 @@ func parseQuoted(b *bytes.Buffer, q rune, key, part string, parts []interface{})
 			if i == len(part)-1 {
 				return append(parts, b.String())
 			}
-			return parseUnquoted(b, key, part[i+1:], parts)
+			return parseUnquoted(b, true, key, part[i+1:], parts)
 		}
 		_, _ = b.WriteRune(c)
 	}
-- 
2.43.0


From 885ac8505c171f11e6bae17f4e537a7db88e141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:33 +0000
Subject: [PATCH 05/43] fix: don't parse the root key again when it is passed
 to a provider

A quoted root key containing a dot resulted in the value of another key and a
quoted root key containing a quote or consisting of digits resulted in a panic.
---
 api/key.go                  | 5 +++++
 provider/configlookupkey.go | 2 +-
 provider/muxlookupkey.go    | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/api/key.go b/api/key.go
index b8e2b31..cf066b2 100644
--- a/api/key.go
+++ b/api/key.go
@@ -48,6 +48,11 @@ func NewKey(str string) Key {
 	return &key{str, parseUnquoted(b, false, str, str, []interface{}{})}
 }
 
+// NewRootKey returns a Key with the given name as its only part. The name is not parsed.
+func NewRootKey(name string) Key {
+	return &key{name, []interface{}{name}}
+}
+
 var keyType = tf.NewNamed(`hiera.key`,
 	func(v dgo.Value) dgo.Value {
 		return NewKey(v.String())
diff --git a/provider/configlookupkey.go b/provider/configlookupkey.go
index 21139f2..d2abd51 100644
--- a/provider/configlookupkey.go
+++ b/provider/configlookupkey.go
@@ -20,7 +20,7 @@ func ConfigLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 func ConfigLookupKeyAt(sc api.ServerContext, configPath, key, moduleName string) dgo.Value {
 	ic := sc.Invocation()
 	cfg := ic.Config(configPath, moduleName)
-	k := api.NewKey(key)
+	k := api.NewRootKey(key)
 	if ic.LookupOptionsMode() {
 		return cfg.LookupOptions(k)
 	}
diff --git a/provider/muxlookupkey.go b/provider/muxlookupkey.go
index 02995bf..61bf7c3 100644
--- a/provider/muxlookupkey.go
+++ b/provider/muxlookupkey.go
@@ -43,7 +43,7 @@ func MuxLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	sc = sc.ForData()
 	args.Set(0, sc)
 	ic = sc.Invocation()
-	return ic.WithLookup(api.NewKey(key), func() dgo.Value {
+	return ic.WithLookup(api.NewRootKey(key), func() dgo.Value {
 		ic.SetMergeStrategy(sc.Option(`merge`), luOpts)
 		return ic.LookupAndConvertData(func() dgo.Value {
 			return ic.MergeStrategy().MergeLookup(spv, ic, luFunc)
-- 
2.43.0


From 36814590ad62d9840e2c1cc8353a99b329dc482f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:36 +0000
Subject: [PATCH 06/43] fix: pass the provider context to data_dig functions

All calls to data_dig functions ended with a panic because an attempt was made
to freeze the invocation. A data_dig function expects a ProviderContext.
---
 internal/datadigprovider.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/datadigprovider.go b/internal/datadigprovider.go
index 9f621d3..3afce37 100644
--- a/internal/datadigprovider.go
+++ b/internal/datadigprovider.go
@@ -44,7 +44,7 @@ func (dh *dataDigProvider) loadFunction(ic api.Invocation) (pf hiera.DataDig) {
 	he := dh.hierarchyEntry
 	if f, ok := ic.LoadFunction(he); ok {
 		return func(pc hiera.ProviderContext, key dgo.Array) dgo.Value {
-			return f.(dgo.Function).Call(vf.Values(ic, key))[0]
+			return f.Call(vf.MutableValues(pc, key))[0]
 		}
 	}
 	ic.ReportText(func() string { return fmt.Sprintf(`unresolved function '%s'`, he.Function().Name()) })
-- 
2.43.0


From 6ed1ab707b7cfc312ace478cfd12b25941367717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:39 +0000
Subject: [PATCH 07/43] fix: restore the scope when the doer given to
 DoWithScope panics

---
 session/invocation.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index c5e4335..240980e 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -308,9 +308,11 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
 	sc := ic.scope
+	defer func() {
+		ic.scope = sc
+	}()
 	ic.scope = scope
 	doer()
-	ic.scope = sc
 }
 
 func (ic *ivContext) Scope() dgo.Keyed {
-- 
2.43.0


From ead54be7d3ff7d0d2893a3e777cb3fe959d7fcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 08/43] fix: don't share an unsynchronized map of module
 providers between invocations

Concurrent module lookups in the same session read and wrote the same map
without synchronization.
---
 provider/modulelookupkey.go | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 1b9f94a..6a7729a 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -17,6 +17,10 @@ import (
 // value must be a string with paths separated with the OS-specific path separator.
 const ModulePath = `hiera::lookup::modulepath`
 
+// moduleProviderPrefix prefixes the keys that the providers of the modules are cached under. Lookups performed by
+// several go routines will use the same cache.
+const moduleProviderPrefix = `hiera::moduleproviders::`
+
 // ModuleLookupKey is a lookup key function that performs a lookup in modules. The function expects
 // a key with multiple segments separated by a double colon '::'. The first segment is considered
 // the name of a module and that module must be found in the path stored as the ModulePath option.
@@ -27,11 +31,11 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if ci := strings.Index(key, `::`); ci > 0 {
 		modName := strings.ToLower(key[:ci])
 		var mp dgo.Function
-		mpm := moduleProviders(sc)
-		if f := mpm.Get(modName); f != nil {
+		if f, ok := sc.CachedValue(moduleProviderPrefix + modName); ok {
 			mp = f.(dgo.Function)
 		} else {
-			mp = loadModuleProvider(sc.Invocation(), mpm, modName)
+			mp = loadModuleProvider(sc.Invocation(), modName)
+			sc.Cache(moduleProviderPrefix+modName, mp)
 		}
 		iv := sc.Invocation()
 		return iv.WithModule(modName, func() dgo.Value {
@@ -45,20 +49,9 @@ func ModuleLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	return nil
 }
 
-func moduleProviders(sc api.ServerContext) dgo.Map {
-	var mp dgo.Map
-	if c, ok := sc.CachedValue(`hiera::moduleproviders`); ok {
-		mp = c.(dgo.Map)
-	} else {
-		mp = vf.MutableMap()
-		sc.Cache(`hiera::moduleproviders`, mp)
-	}
-	return mp
-}
-
 var notFoundLookupKeyFunc = vf.Value(func(pc hiera.ProviderContext, key string) dgo.Value { return nil }).(dgo.Function)
 
-func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.Function {
+func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 	var mp dgo.Function = notFoundLookupKeyFunc
 	if modulePath, ok := ic.SessionOptions().Get(ModulePath).(dgo.String); ok {
 		for _, path := range filepath.SplitList(modulePath.GoString()) {
@@ -68,7 +61,6 @@ func loadModuleProvider(ic api.Invocation, mpm dgo.Map, moduleName string) dgo.F
 			}
 		}
 	}
-	mpm.Put(moduleName, mp)
 	return mp
 }
 
-- 
2.43.0


From d6887f4db253875a9977909db6c4311e8c629776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 09/43] fix: let a lookup made by an interpolation use its own
 lookup options

The 'alias' and 'lookup' interpolation methods used the merge strategy of the
key being resolved and ignored the lookup options of the interpolated key. A
value that the options convert to sensitive was interpolated in clear text.
---
 session/invocation.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/invocation.go b/session/invocation.go
index 240980e..e93f977 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -263,6 +263,8 @@ func (ic *ivContext) Lookup(key api.Key, options dgo.Map) dgo.Value {
 	}
 
 	lic := ic.forName(key.Source())
+	// A lookup performed while resolving another one, e.g. from an interpolation, uses its own lookup options.
+	lic.mode = topLevelMode
 	v := lic.TopProvider()(lic.ServerContext(options), rootKey)
 	if v != nil {
 		dc := lic.ForData()
-- 
2.43.0


From 44500ddb12294acb1a4b7442b0cdd820d9f43a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:12 +0000
Subject: [PATCH 10/43] fix: serialize the loading of functions

Concurrent lookups that used the same plugin or function for the first time
could fail with 'namespace is already defined' or 'attempt to override entry'.
---
 session/session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session/session.go b/session/session.go
index 2ee9d34..53eea1d 100644
--- a/session/session.go
+++ b/session/session.go
@@ -32,6 +32,10 @@ type session struct {
 	vars     map[string]interface{}
 	scope    dgo.Keyed
 	loader   dgo.Loader
+
+	// functionLock serializes the loading of functions. The loader doesn't permit that different go routines create
+	// the same namespace or load the same entry at the same time.
+	functionLock sync.Mutex
 }
 
 const hieraCacheKey = `Hiera::Cache`
@@ -154,6 +158,9 @@ func (s *session) Loader() dgo.Loader {
 }
 
 func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
+	s.functionLock.Lock()
+	defer s.functionLock.Unlock()
+
 	n := he.Function().Name()
 	l := s.Loader()
 	fn, ok = l.Namespace(`function`).Get(n).(dgo.Function)
-- 
2.43.0


From 4e12203c3aeba743bae9758c2fd384c1f7980278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 11/43] fix: close the connection when a plugin call is done

Every call used a new http.Transport that retained an idle connection and the
go routines serving it for as long as the plugin was running.
---
 session/pluginloader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 72b724e..2e664c3 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -336,6 +336,8 @@ func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
 	client := http.Client{
 		Timeout: time.Second * 5,
 		Transport: &http.Transport{
+			// The transport is not reused so don't let it retain the connection
+			DisableKeepAlives: true,
 			Dial: func(_, _ string) (net.Conn, error) {
 				return net.Dial(p.network, p.addr)
 			},
-- 
2.43.0


From c72742cb6c6eccc92280fc6ad20e1a5cf2e22449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 12/43] fix: reap plugin processes that are killed

A plugin that failed to start, or had to be killed because it didn't react on
the termination signal, remained as a defunct process and left a blocked go
routine behind.
---
 session/pluginloader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 2e664c3..957061a 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -156,6 +156,7 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
+			_, _ = cmd.Process.Wait()
 			panic(r)
 		}
 	}()
@@ -164,7 +165,8 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
-	metaCh := make(chan interface{})
+	// The channel is buffered so that the go routine that writes to it ends also after a timeout
+	metaCh := make(chan interface{}, 1)
 	p.wGroup.Add(1)
 	go awaitMetaData(metaCh, cmdOut, &p.wGroup)
 
@@ -208,6 +210,7 @@ func (p *plugin) kill() {
 	p.lock.Lock()
 	process := p.process
 	if process == nil {
+		p.lock.Unlock()
 		return
 	}
 
@@ -223,7 +226,7 @@ func (p *plugin) kill() {
 	}
 
 	if graceful {
-		done := make(chan bool)
+		done := make(chan bool, 1)
 		go func() {
 			_, _ = process.Wait()
 			done <- true
@@ -232,10 +235,12 @@ func (p *plugin) kill() {
 		case <-done:
 		case <-time.After(time.Second * 3):
 			_ = process.Kill()
+			<-done
 		}
 	} else {
 		// Graceful terminate failed. Just kill it!
 		_ = process.Kill()
+		_, _ = process.Wait()
 	}
 }
 
-- 
2.43.0


From c81e67a2d2b7c0aaccd78165d203ba76a169fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:54 +0000
Subject: [PATCH 13/43] fix: don't let concurrent REST requests share the slice
 of variables

The variables of a request were appended to the slice that holds the variables
given on the command line, so a request could see the variables of another.
---
 hieraserver/rest/rest.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index da49da3..268d528 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -133,7 +133,8 @@ func CreateRouter(ctx api.Session) http.Handler {
 		}
 		opts.Merge = params.Get(`merge`)
 		opts.Type = params.Get(`type`)
-		opts.Variables = append(opts.Variables, params[`var`]...)
+		// Don't append to the slice of the command options. Its backing array is shared by all requests
+		opts.Variables = append(append([]string{}, opts.Variables...), params[`var`]...)
 		opts.RenderAs = `json`
 		out := bytes.Buffer{}
 		if hiera.LookupAndRender(ctx, &opts, []string{key}, &out) {
-- 
2.43.0


From 4f253e2dedd16b86b5c99a461566bf87089811b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 14/43] fix: use the files that match a glob in alphabetical
 order

The order was the one in which the file system happened to list the files and
the priority of the values found in them was thus undefined.
---
 config/glob.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/config/glob.go b/config/glob.go
index 7a5ffe3..86fba1e 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"path/filepath"
 	"reflect"
+	"sort"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -64,6 +65,9 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
 	rp := filepath.Join(dataDir, r.String())
 	matches, _ := doublestar.Glob(rp)
+
+	// The matches are found in the order that the file system lists them. Sort to get a well defined priority.
+	sort.Strings(matches)
 	ls := make([]api.Location, len(matches))
 	for i, m := range matches {
 		ls[i] = &path{g.Original(), m, true}
-- 
2.43.0


From 61e54aa020652aca4c7ce6e9ae2b9bc05735d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 15/43] fix: pass the additional arguments of convert_to to the
 constructor of the type

---
 session/invocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/session/invocation.go b/session/invocation.go
index e93f977..ed7a9e0 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -207,7 +207,7 @@ func (ic *ivContext) LookupAndConvertData(fn func() dgo.Value) dgo.Value {
 
 	if v != nil && convertToType != nil {
 		if convertToArgs != nil {
-			v = vf.Arguments(vf.Values(v).WithAll(convertToArgs))
+			v = vf.ArgumentsFromArray(vf.Values(v).WithAll(convertToArgs))
 		}
 		v = vf.New(convertToType, v)
 	}
-- 
2.43.0


From 12e8ac87fd29ceab9921dad7dac1a4a3b3ca43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 16/43] fix: don't freeze values that other go routines may use
 when interpolating

---
 session/interpolate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/session/interpolate.go b/session/interpolate.go
index fa07c0d..88004ce 100644
--- a/session/interpolate.go
+++ b/session/interpolate.go
@@ -60,8 +60,8 @@ func (ic *ivContext) doInterpolate(value dgo.Value, allowMethods bool) (dgo.Valu
 			}
 		})
 		if changed {
-			cp.Freeze()
-			h = cp
+			// Values that weren't changed may be shared with other go routines, so freeze a copy of them.
+			h = cp.FrozenCopy().(dgo.Map)
 		}
 		return h, changed
 	}
-- 
2.43.0


From d63b00882e52dd3661a9037c40cae443d3fbd17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 17/43] fix: don't register a plugin with functions that are
 not valid

---
 session/pluginloader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 957061a..f871177 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -191,9 +191,11 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		r.plugins = make(map[string]*plugin)
 	}
 	p.initialize(meta)
-	r.plugins[path] = p
 
-	return p.functionMap()
+	// Don't register the plugin until its functions are known to be valid
+	fm := p.functionMap()
+	r.plugins[path] = p
+	return fm
 }
 
 func initCmd(opts dgo.Map, path string) *exec.Cmd {
-- 
2.43.0


From 596194a9eaa7fc6ac1578e0559564346e421045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:22 +0000
Subject: [PATCH 18/43] fix: let a session end also when a descendant of a
 plugin holds on to its pipes

---
 session/pluginloader.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index f871177..94a6af9 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -30,6 +31,7 @@ type plugin struct {
 	lock      sync.Mutex
 	wGroup    sync.WaitGroup
 	process   *os.Process
+	pipes     []io.Closer
 	path      string
 	addr      string
 	network   string
@@ -69,7 +71,7 @@ func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 	for {
 		line, pfx, err := reader.ReadLine()
 		if err != nil {
-			if err != io.EOF {
+			if err != io.EOF && !errors.Is(err, os.ErrClosed) {
 				log.Errorf(`error reading stderr of plugin %s: %s`, path, err.Error())
 			}
 			return
@@ -98,7 +100,7 @@ func ignoreOut(cmdOut io.Reader, wGroup *sync.WaitGroup) {
 	toss := make([]byte, 0x1000)
 	for {
 		_, err := cmdOut.Read(toss)
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 	}
@@ -152,16 +154,18 @@ func (r *pluginRegistry) startPlugin(opts dgo.Map, path string) dgo.Value {
 		panic(fmt.Errorf(`unable to start plugin %s: %s`, path, err.Error()))
 	}
 
+	p := &plugin{path: path, process: cmd.Process, pipes: []io.Closer{cmdErr, cmdOut}}
+
 	// Make sure the plugin process is killed if there is an error
 	defer func() {
 		if r := recover(); r != nil {
 			_ = cmd.Process.Kill()
 			_, _ = cmd.Process.Wait()
+			p.closePipes()
 			panic(r)
 		}
 	}()
 
-	p := &plugin{path: path, process: cmd.Process}
 	p.wGroup.Add(1)
 	go copyErrToLog(path, cmdErr, &p.wGroup)
 
@@ -208,6 +212,25 @@ func initCmd(opts dgo.Map, path string) *exec.Cmd {
 	return cmd
 }
 
+// closePipes closes the pipes to a plugin process that has ended. The go routines that read from the pipes are given some
+// time to read what the plugin has written. They don't always reach the end of it, because another process that the plugin
+// started may hold on to the pipes.
+func (p *plugin) closePipes() {
+	done := make(chan bool)
+	go func() {
+		p.wGroup.Wait()
+		close(done)
+	}()
+	select {
+	case <-done:
+	case <-time.After(time.Second):
+	}
+	for _, pipe := range p.pipes {
+		_ = pipe.Close()
+	}
+	<-done
+}
+
 func (p *plugin) kill() {
 	p.lock.Lock()
 	process := p.process
@@ -217,7 +240,7 @@ func (p *plugin) kill() {
 	}
 
 	defer func() {
-		p.wGroup.Wait()
+		p.closePipes()
 		p.process = nil
 		p.lock.Unlock()
 	}()
-- 
2.43.0


From 4fcd529e0f171504138650428aa5730336d16321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 19/43] fix: let a plugin function see an empty map when it has
 no options

---
 session/pluginloader.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index 94a6af9..d080cc0 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -338,12 +338,10 @@ func (p *plugin) lookupKeyDispatch(name string) dgo.Function {
 
 func makeOptions(pc hiera.ProviderContext) url.Values {
 	params := make(url.Values)
-	opts := pc.OptionsMap()
-	if opts.Len() > 0 {
-		bld := bytes.Buffer{}
-		streamer.New(nil, streamer.DefaultOptions()).Stream(opts, streamer.JSON(&bld))
-		params.Add(`options`, strings.TrimSpace(bld.String()))
-	}
+	// Options are passed also when there are none. The options of the plugin are a nil map when they are missing.
+	bld := bytes.Buffer{}
+	streamer.New(nil, streamer.DefaultOptions()).Stream(pc.OptionsMap(), streamer.JSON(&bld))
+	params.Add(`options`, strings.TrimSpace(bld.String()))
 	return params
 }
 
-- 
2.43.0


From e847b3ad1e1fe7f7f9cc89774b5949b2cb64e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 20/43] fix: values returned from a lookup could be used to
 alter the data of later lookups

A data_hash provider keeps the hash that its function returns and lookups returned
mutable parts of it.
---
 internal/datahashprovider.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/datahashprovider.go b/internal/datahashprovider.go
index e597774..82985ce 100644
--- a/internal/datahashprovider.go
+++ b/internal/datahashprovider.go
@@ -96,10 +96,29 @@ func (dh *dataHashProvider) dataHash(ic api.Invocation, location api.Location) (
 		return hash
 	}
 	hash = dh.providerFunction(ic)(ic.ServerContext(opts))
+	if canFreeze(hash) {
+		// Parts of the hash are returned from lookups and it must not be possible to alter the hash through them
+		hash = hash.FrozenCopy().(dgo.Map)
+	}
 	dh.hashes.Put(key, hash)
 	return
 }
 
+// canFreeze returns true unless the value is, or contains, something that isn't data and that hence cannot be frozen
+func canFreeze(value dgo.Value) bool {
+	switch value := value.(type) {
+	case dgo.Map:
+		return value.All(func(e dgo.MapEntry) bool { return canFreeze(e.Key()) && canFreeze(e.Value()) })
+	case dgo.Array:
+		return value.All(canFreeze)
+	case dgo.Sensitive:
+		return canFreeze(value.Unwrap())
+	case dgo.Native, dgo.Type:
+		return false
+	}
+	return true
+}
+
 func (dh *dataHashProvider) FullName() string {
 	return fmt.Sprintf(`data_hash function '%s'`, dh.hierarchyEntry.Function().Name())
 }
-- 
2.43.0


From 694dfd88eb48f42e56ee81cb635b6406270910a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:35 +0000
Subject: [PATCH 21/43] fix: values returned from YamlLookupKey could be used
 to alter the cached data

---
 provider/yamllookupkey.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/yamllookupkey.go b/provider/yamllookupkey.go
index b0e8858..fa8d2d1 100644
--- a/provider/yamllookupkey.go
+++ b/provider/yamllookupkey.go
@@ -21,7 +21,9 @@ func YamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	data, ok := sc.CachedValue(YamlDataKey)
 	if !ok {
 		iv := sc.Invocation()
-		data = YamlData(iv.ServerContext(vf.Map(`path`, iv.SessionOptions().Get(`path`))))
+		hash := YamlData(iv.ServerContext(vf.Map(`path`, iv.SessionOptions().Get(`path`))))
+		hash.Freeze() // parts of it are returned from lookups
+		data = hash
 		sc.Cache(YamlDataKey, data)
 	}
 	hash, _ := data.(dgo.Map)
-- 
2.43.0


From 09a432fa9a6ee748b7736bd13b6bee4ed2aa58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:26 +0000
Subject: [PATCH 22/43] fix: content that follows the object of a JSON data
 file was silently ignored

---
 provider/jsondata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/provider/jsondata.go b/provider/jsondata.go
index 74e1cee..9328859 100644
--- a/provider/jsondata.go
+++ b/provider/jsondata.go
@@ -1,6 +1,8 @@
 package provider
 
 import (
+	"encoding/json"
+	"fmt"
 	"io/ioutil"
 	"os"
 
@@ -26,6 +28,10 @@ func JSONData(ctx hiera.ProviderContext) dgo.Map {
 		panic(err)
 	}
 	v := streamer.UnmarshalJSON(bs, nil)
+	if !json.Valid(bs) {
+		// The file has a valid JSON value that is followed by something else
+		panic(fmt.Errorf("could not unmarshal %s: invalid content after top-level value", path))
+	}
 	if data, ok := v.(dgo.Map); ok {
 		return data
 	}
-- 
2.43.0


From 2550c1f79ebb2bbf472005a7fba491abedc92dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:52 +0000
Subject: [PATCH 23/43] fix: a data file in a directory that may not be
 accessed was silently ignored

---
 config/mappedpaths.go |  4 +---
 config/path.go        | 10 ++++++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/config/mappedpaths.go b/config/mappedpaths.go
index bbfbaf6..4d5977c 100644
--- a/config/mappedpaths.go
+++ b/config/mappedpaths.go
@@ -2,7 +2,6 @@ package config
 
 import (
 	"fmt"
-	"os"
 	"path/filepath"
 	"reflect"
 
@@ -104,8 +103,7 @@ func (m *mappedPaths) Resolve(ic api.Invocation, dataDir string) []api.Location
 		ic.DoWithScope(&scopeWithVar{ic.Scope(), vf.String(m.key), mv}, func() {
 			r, _ := ic.InterpolateString(m.template, false)
 			rp := filepath.Join(dataDir, r.String())
-			_, err := os.Stat(rp)
-			paths[i] = &path{m.template, rp, err == nil}
+			paths[i] = &path{m.template, rp, pathExists(rp)}
 		})
 	})
 	return paths
diff --git a/config/path.go b/config/path.go
index 6228055..da8bf77 100644
--- a/config/path.go
+++ b/config/path.go
@@ -75,8 +75,14 @@ func (p *path) String() string {
 func (p *path) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(p.original, false)
 	rp := filepath.Join(dataDir, r.String())
-	_, err := os.Stat(rp)
-	return []api.Location{&path{p.original, rp, err == nil}}
+	return []api.Location{&path{p.original, rp, pathExists(rp)}}
+}
+
+// pathExists returns false if there's nothing at the given path. A path that may not be accessed is considered to exist,
+// so that what uses it fails instead of being silently ignored.
+func pathExists(path string) bool {
+	_, err := os.Stat(path)
+	return err == nil || os.IsPermission(err)
 }
 
 func (p *path) Original() string {
-- 
2.43.0


From fa3951adf8cc64d4e2239fce6941d821a2f5680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:40 +0000
Subject: [PATCH 24/43] fix: environment variables were used as lookup options
 by the lookup of env

---
 provider/environment.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/provider/environment.go b/provider/environment.go
index 7f02a3a..aaefbe2 100644
--- a/provider/environment.go
+++ b/provider/environment.go
@@ -6,6 +6,7 @@ import (
 
 	"github.com/lyraproj/dgo/dgo"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 )
 
@@ -13,7 +14,11 @@ import (
 // "env" in which case all current environment variables will be returned as an OrderedMap, or
 // prefixed with "env::" in which case the rest of the key is interpreted as the environment variable
 // to look for.
-func Environment(_ hiera.ProviderContext, key string) dgo.Value {
+func Environment(pc hiera.ProviderContext, key string) dgo.Value {
+	if sc, ok := pc.(api.ServerContext); ok && sc.Invocation().LookupOptionsMode() {
+		// Environment variables, such as one named merge or convert_to, are not lookup options
+		return nil
+	}
 	if key == `env` {
 		env := os.Environ()
 		em := vf.MapWithCapacity(len(env))
-- 
2.43.0


From fb652ef6f1974c46e57fdb793d94a06f2cc02ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:36 +0000
Subject: [PATCH 25/43] fix: REST requests for a key that contains a newline
 were not served

---
 hieraserver/rest/rest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 268d528..61e02d3 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -70,7 +70,7 @@ func newCommand() *cobra.Command {
 	return cmd
 }
 
-var keyPattern = regexp.MustCompile(`^/lookup/(.*)$`)
+var keyPattern = regexp.MustCompile(`(?s)^/lookup/(.*)$`)
 
 func startServer(_ *cobra.Command, _ []string) {
 	configOptions := map[string]interface{}{
-- 
2.43.0


From 7122fa8803435cfa4ba2a2c923fde8fe61880f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 26/43] fix: yaml2json ignored what followed the first document
 of its input

---
 yaml2json/main.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/yaml2json/main.go b/yaml2json/main.go
index a8c625e..6e1f56f 100644
--- a/yaml2json/main.go
+++ b/yaml2json/main.go
@@ -2,7 +2,10 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
+	"errors"
+	"io"
 	"io/ioutil"
 	"log"
 	"os"
@@ -26,11 +29,26 @@ func stringKeys(x interface{}) interface{} {
 	return x
 }
 
+// unmarshal returns the value of the only document in the given data
+func unmarshal(data []byte) (body interface{}, err error) {
+	decoder := yaml.NewDecoder(bytes.NewReader(data))
+	if err = decoder.Decode(&body); err == nil {
+		var next interface{}
+		if err = decoder.Decode(&next); err == nil {
+			err = errors.New(`the input has more than one document`)
+		}
+	}
+	if err == io.EOF {
+		err = nil
+	}
+	return
+}
+
 func main() {
 	data, err := ioutil.ReadAll(os.Stdin)
 	if err == nil {
 		var body interface{}
-		if err = yaml.Unmarshal(data, &body); err == nil {
+		if body, err = unmarshal(data); err == nil {
 			var bytes []byte
 			if bytes, err = json.MarshalIndent(stringKeys(body), ``, ` `); err == nil {
 				if _, err = os.Stdout.Write(bytes); err == nil {
-- 
2.43.0


From d93c5a875cbd8477697d2f2a2d8a5a5d81185802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:31 +0000
Subject: [PATCH 27/43] fix: the REST server served without TLS, or without
 client verification, when its flags were incomplete

---
 hieraserver/rest/rest.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 61e02d3..666693a 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -166,9 +166,15 @@ func loadCertPool(pemFile string) (*x509.CertPool, error) {
 }
 
 func makeTLSconfig() (*tls.Config, error) {
-	if sslCert == "" || sslKey == "" {
+	if sslCert == "" && sslKey == "" {
+		if clientCertVerify {
+			return nil, errors.New("clientCertVerify requires ssl-cert and ssl-key")
+		}
 		return nil, nil
 	}
+	if sslCert == "" || sslKey == "" {
+		return nil, errors.New("ssl-cert and ssl-key must be given together")
+	}
 	tlsConfig := new(tls.Config)
 
 	cert, err := tls.LoadX509KeyPair(sslCert, sslKey)
-- 
2.43.0


From 803596e1b9ecdebed0f6fc03a660dffc33cb5e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:26 +0000
Subject: [PATCH 28/43] fix: texts that functions explain during a lookup or
 merge were missing in the text rendering

---
 explain/explainer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explain/explainer.go b/explain/explainer.go
index e1e8603..b9669fd 100644
--- a/explain/explainer.go
+++ b/explain/explainer.go
@@ -555,7 +555,9 @@ func (en *explainLookup) AppendTo(w dgo.Indenter) {
 	w.Append(`Searching for "`)
 	w.Append(en.key())
 	w.AppendRune('"')
-	en.dumpBranches(w.Indent())
+	w = w.Indent()
+	en.dumpBranches(w)
+	en.dumpTexts(w)
 }
 
 func (en *explainLookup) String() string {
@@ -632,6 +634,7 @@ func (en *explainMerge) AppendTo(w dgo.Indenter) {
 			dumpValue(en.v, w)
 		}
 	}
+	en.dumpTexts(w)
 }
 
 func (en *explainMerge) String() string {
-- 
2.43.0


From 0da61236e676a55d130f658c5ff1bf622d1b595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:26 +0000
Subject: [PATCH 29/43] fix: an absolute path in HIERA_CONFIGFILE was taken as
 relative to the root directory

---
 session/session.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/session/session.go b/session/session.go
index 53eea1d..4f229b5 100644
--- a/session/session.go
+++ b/session/session.go
@@ -120,6 +120,10 @@ func addHieraConfig(options dgo.Map) {
 	if r := options.Get(api.HieraConfigFileName); r != nil {
 		fileName = r.String()
 	} else if configFile, ok := os.LookupEnv("HIERA_CONFIGFILE"); ok {
+		if filepath.IsAbs(configFile) {
+			options.Put(api.HieraConfig, configFile)
+			return
+		}
 		fileName = configFile
 	} else {
 		fileName = config.FileName
-- 
2.43.0


From 684402f449fa900e3cf7bafc108472e502633ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:26 +0000
Subject: [PATCH 30/43] fix: with a relative configuration path, the plugin
 directory of the defaults was made relative to the root twice

---
 config/entry.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/config/entry.go b/config/entry.go
index 3396181..eea78f5 100644
--- a/config/entry.go
+++ b/config/entry.go
@@ -129,7 +129,9 @@ func (e *entry) resolvePluginDir(ic api.Invocation, defaults api.Entry) {
 		if defaults == nil {
 			e.pluginDir = defaultPluginDir()
 		} else {
+			// The directory of the defaults is already resolved
 			e.pluginDir = defaults.PluginDir()
+			return
 		}
 	} else {
 		if d, dc := ic.InterpolateString(e.pluginDir, false); dc {
-- 
2.43.0


From f19f0a1176bd0c3f7f3137520434d00de015ac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:32 +0000
Subject: [PATCH 31/43] fix: the data that YamlLookupKey and ScopeLookupKey
 have for a key was used as its lookup options by MuxLookupKey

---
 provider/scopelookupkey.go | 16 +++++++++++++++-
 provider/yamllookupkey.go  |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/provider/scopelookupkey.go b/provider/scopelookupkey.go
index f910525..4eccd31 100644
--- a/provider/scopelookupkey.go
+++ b/provider/scopelookupkey.go
@@ -12,5 +12,19 @@ func ScopeLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 	if !ok {
 		return nil
 	}
-	return sc.Invocation().Scope().Get(key)
+	return dataOrOptions(sc.Invocation(), sc.Invocation().Scope(), key)
+}
+
+// dataOrOptions returns what the given data has for the key or, when the lookup options are what is asked for, what the
+// lookup_options in that data has for it. The data found for a key must not be mistaken for its lookup options.
+func dataOrOptions(ic api.Invocation, data dgo.Keyed, key string) dgo.Value {
+	if !ic.LookupOptionsMode() || key == `lookup_options` {
+		return data.Get(key)
+	}
+	if options, ok := data.Get(`lookup_options`).(dgo.Map); ok {
+		if m, ok := options.Get(key).(dgo.Map); ok {
+			return m
+		}
+	}
+	return nil
 }
diff --git a/provider/yamllookupkey.go b/provider/yamllookupkey.go
index fa8d2d1..78351b8 100644
--- a/provider/yamllookupkey.go
+++ b/provider/yamllookupkey.go
@@ -27,5 +27,5 @@ func YamlLookupKey(pc hiera.ProviderContext, key string) dgo.Value {
 		sc.Cache(YamlDataKey, data)
 	}
 	hash, _ := data.(dgo.Map)
-	return hash.Get(key)
+	return dataOrOptions(sc.Invocation(), hash, key)
 }
-- 
2.43.0


From 31c5f98c84ccdba9246d28818b0c3e5bfe68c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:47 +0000
Subject: [PATCH 32/43] fix: when the global configuration also is that of a
 module, its lookup options were lost after a lookup in that module

---
 session/invocation.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index ed7a9e0..da42283 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -35,12 +35,19 @@ type ivContext struct {
 	scope     dgo.Keyed
 	luOpts    dgo.Map
 	strategy  api.MergeStrategy
-	configs   map[string]api.ResolvedConfig
+	configs   map[configKey]api.ResolvedConfig
 	explainer api.Explainer
 	mode      invocationMode
 	redacted  bool
 }
 
+// configKey identifies a resolved config. The module name is included because a config that is resolved for a module only
+// has the lookup options of that module, and the same file may be used also as the global config.
+type configKey struct {
+	path       string
+	moduleName string
+}
+
 type nestedScope struct {
 	parentScope dgo.Keyed
 	scope       dgo.Keyed
@@ -51,7 +58,7 @@ func newInvocation(s api.Session, scope dgo.Keyed, explainer api.Explainer) api.
 		Session:   s,
 		nameStack: []string{},
 		scope:     scope,
-		configs:   map[string]api.ResolvedConfig{},
+		configs:   map[configKey]api.ResolvedConfig{},
 		explainer: explainer,
 		mode:      topLevelMode}
 }
@@ -69,14 +76,15 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 		configPath = ic.SessionOptions().Get(api.HieraConfig).String()
 	}
 
-	if rc, ok := ic.configs[configPath]; ok {
+	ck := configKey{configPath, moduleName}
+	if rc, ok := ic.configs[ck]; ok {
 		return rc
 	}
 
 	cp := hieraConfigsPrefix + configPath
 	if val, ok := sc.Load(cp); ok {
 		rc := Resolve(ic, val.(api.Config), moduleName)
-		ic.configs[configPath] = rc
+		ic.configs[ck] = rc
 		return rc
 	}
 
@@ -119,7 +127,7 @@ func (ic *ivContext) Config(configPath string, moduleName string) api.ResolvedCo
 		}()
 	}
 	rc := Resolve(ic, conf, moduleName)
-	ic.configs[configPath] = rc
+	ic.configs[ck] = rc
 	return rc
 }
 
-- 
2.43.0


From acec999b124c16cc79aa930979c5680d630158ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:12 +0000
Subject: [PATCH 33/43] fix: configurations that were resolved in the scope
 given to DoWithScope were used in other scopes, and vice versa

---
 session/invocation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/session/invocation.go b/session/invocation.go
index da42283..ab4afd5 100644
--- a/session/invocation.go
+++ b/session/invocation.go
@@ -317,11 +317,12 @@ func (ic *ivContext) DoRedacted(doer dgo.Doer) {
 }
 
 func (ic *ivContext) DoWithScope(scope dgo.Keyed, doer dgo.Doer) {
-	sc := ic.scope
+	sc, cs := ic.scope, ic.configs
 	defer func() {
-		ic.scope = sc
+		ic.scope, ic.configs = sc, cs
 	}()
-	ic.scope = scope
+	// Configs are resolved using the scope, so those that are resolved in one scope must not be used in another.
+	ic.scope, ic.configs = scope, map[configKey]api.ResolvedConfig{}
 	doer()
 }
 
-- 
2.43.0


From a4178ee8510017db9cde51dec04c0048fc96e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:00 +0000
Subject: [PATCH 34/43] fix: globs in directories with names that contain
 characters with a special meaning in patterns didn't match

---
 config/glob.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/config/glob.go b/config/glob.go
index 86fba1e..1411a05 100644
--- a/config/glob.go
+++ b/config/glob.go
@@ -5,6 +5,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strings"
 
 	"github.com/bmatcuk/doublestar"
 	"github.com/lyraproj/dgo/dgo"
@@ -63,7 +64,7 @@ func (g glob) Original() string {
 
 func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	r, _ := ic.InterpolateString(g.Original(), false)
-	rp := filepath.Join(dataDir, r.String())
+	rp := filepath.Join(quoteMeta(dataDir), r.String())
 	matches, _ := doublestar.Glob(rp)
 
 	// The matches are found in the order that the file system lists them. Sort to get a well defined priority.
@@ -75,6 +76,25 @@ func (g glob) Resolve(ic api.Invocation, dataDir string) []api.Location {
 	return ls
 }
 
+// quoteMeta quotes the characters of the given directory that have a special meaning in a pattern, so that the directory
+// only matches itself.
+func quoteMeta(dir string) string {
+	b := strings.Builder{}
+	for i := 0; i < len(dir); i++ {
+		switch c := dir[i]; {
+		case strings.IndexByte(`*?[{`, c) >= 0:
+			b.WriteByte('[')
+			b.WriteByte(c)
+			b.WriteByte(']')
+		case c == '\\' && filepath.Separator != '\\':
+			b.WriteString(`\\`)
+		default:
+			b.WriteByte(c)
+		}
+	}
+	return b.String()
+}
+
 func (g glob) Resolved() string {
 	// This should never happen.
 	panic(fmt.Errorf(`resolved requested on a glob`))
-- 
2.43.0


From 02c06c5a9684312c5ce52d993f0ea53bfe2c9867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:38 +0000
Subject: [PATCH 35/43] fix: REST requests for a key that isn't a clean path,
 such as a//b, were redirected to another key

---
 hieraserver/rest/rest.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index 666693a..bf18c0f 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -147,7 +147,14 @@ func CreateRouter(ctx api.Session) http.Handler {
 
 	router := http.NewServeMux()
 	router.HandleFunc("/lookup/", doLookup)
-	return router
+	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
+		if keyPattern.MatchString(r.URL.Path) {
+			// The ServeMux would redirect a key that isn't a clean path, such as a//b, to another key
+			doLookup(w, r)
+		} else {
+			router.ServeHTTP(w, r)
+		}
+	})
 }
 
 func loadCertPool(pemFile string) (*x509.CertPool, error) {
-- 
2.43.0


From 51c679db1ed2f59a2ef66ba9178e95e32667daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:46 +0000
Subject: [PATCH 36/43] fix: variables given to the command or in a REST
 request couldn't have a value with more than one line

---
 hiera/hiera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiera/hiera.go b/hiera/hiera.go
index d67129d..4f95d2e 100644
--- a/hiera/hiera.go
+++ b/hiera/hiera.go
@@ -205,7 +205,7 @@ func DoWithParent(parent context.Context, tp hiera.LookupKey, options interface{
 }
 
 // varSplit splits on either ':' or '=' but not on '::', ':=', '=:' or '=='
-var varSplit = regexp.MustCompile(`\A(.*?[^:=])[:=]([^:=].*)\z`)
+var varSplit = regexp.MustCompile(`(?s)\A(.*?[^:=])[:=]([^:=].*)\z`)
 var needParsePrefix = []string{`{`, `[`, `"`, `'`}
 
 // LookupAndRender performs a lookup using the given command options and arguments and renders the result on the given
-- 
2.43.0


From 33a8397003849393126949960f60fec4e36956c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:47 +0000
Subject: [PATCH 37/43] fix: creating a session froze the values, such as the
 scope, that it was given

---
 session/session.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/session/session.go b/session/session.go
index 4f229b5..e988a65 100644
--- a/session/session.go
+++ b/session/session.go
@@ -91,7 +91,8 @@ func New(parent context.Context, topProvider hiera.LookupKey, oif interface{}, l
 	} else {
 		scope = vf.Map()
 	}
-	options.Freeze()
+	// The values of the options, such as the scope, belong to the caller so they must not be frozen
+	options = options.FrozenCopy().(dgo.Map)
 
 	vars := map[string]interface{}{
 		hieraCacheKey:            &sync.Map{},
-- 
2.43.0


From 4eb935c839dd834e969bdbfd8ffc0f8deed37d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:31 +0000
Subject: [PATCH 38/43] fix: modules that are symbolic links, or have something
 else with the same name in another case beside them, weren't found

---
 provider/modulelookupkey.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index 6a7729a..bd68a86 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -84,19 +84,21 @@ func loadModule(path, moduleName string) dgo.Function {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
 		}
-		if !fi.IsDir() {
-			break
+		// The module can be a symbolic link. Something else with the same name, using a different case, isn't the module
+		modulePath := filepath.Join(path, fi.Name())
+		if mi, err := os.Stat(modulePath); err != nil || !mi.IsDir() {
+			continue
 		}
-		configPath := filepath.Join(path, fi.Name(), config.FileName)
+		configPath := filepath.Join(modulePath, config.FileName)
 		cf, err := os.Lstat(configPath)
 		if err != nil {
 			if os.IsNotExist(err) {
-				break
+				continue
 			}
 			panic(err)
 		}
 		if cf.IsDir() {
-			break
+			continue
 		}
 		return loadHieraConfig(configPath, moduleName)
 	}
-- 
2.43.0


From 437db602f4c5421a9bd78b0e04778b8fce7f3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:25 +0000
Subject: [PATCH 39/43] fix: the commands wrote an address and the error on the
 standard output when they failed

---
 hieraserver/rest/rest.go | 5 ++---
 lookup/lookup.go         | 6 ++----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/hieraserver/rest/rest.go b/hieraserver/rest/rest.go
index bf18c0f..52fd229 100644
--- a/hieraserver/rest/rest.go
+++ b/hieraserver/rest/rest.go
@@ -24,9 +24,8 @@ import (
 
 func main() {
 	cmd := newCommand()
-	err := cmd.Execute()
-	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+	if err := cmd.Execute(); err != nil {
+		// Execute has written the error
 		os.Exit(1)
 	}
 }
diff --git a/lookup/lookup.go b/lookup/lookup.go
index 9994774..aaad444 100644
--- a/lookup/lookup.go
+++ b/lookup/lookup.go
@@ -1,7 +1,6 @@
 package main
 
 import (
-	"fmt"
 	"os"
 
 	"github.com/lyraproj/hiera/cli"
@@ -9,9 +8,8 @@ import (
 
 func main() {
 	cmd := cli.NewCommand()
-	err := cmd.Execute()
-	if err != nil {
-		fmt.Println(cmd.OutOrStderr(), err)
+	if err := cmd.Execute(); err != nil {
+		// Execute has written the error
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 5df00e2e291c6d07e88dbac7b4b0dc98647a1455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:36 +0000
Subject: [PATCH 40/43] fix: lines that different plugins write on standard
 error were mixed in the log

---
 session/pluginloader.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index d080cc0..df13cf3 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -63,6 +63,9 @@ func createPipe(path, name string, fn func() (io.ReadCloser, error)) io.ReadClos
 	return pipe
 }
 
+// logLock serializes what the plugins write to the log
+var logLock sync.Mutex
+
 // copyErrToLog propagates everything written on the plugin's stderr to the StandardLogger of this process.
 func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 	defer wGroup.Done()
@@ -76,10 +79,14 @@ func copyErrToLog(path string, cmdErr io.Reader, wGroup *sync.WaitGroup) {
 			}
 			return
 		}
-		_, _ = out.Write(line)
 		if !pfx {
-			_, _ = out.Write([]byte{'\n'})
+			// A line must be written in one go, or else lines from different plugins are mixed. The line is part of the
+			// reader's buffer so it must be copied.
+			line = append(append(make([]byte, 0, len(line)+1), line...), '\n')
 		}
+		logLock.Lock()
+		_, _ = out.Write(line)
+		logLock.Unlock()
 	}
 }
 
-- 
2.43.0


From 5c09c74e384edd91f72f775c8cac543d1135f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:43 +0000
Subject: [PATCH 41/43] fix: plugin functions with names that contain
 characters with a special meaning in URLs, such as ?, couldn't be called

---
 session/pluginloader.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index df13cf3..b26c10f 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -353,16 +353,10 @@ func makeOptions(pc hiera.ProviderContext) url.Values {
 }
 
 func (p *plugin) callPlugin(luType, name string, params url.Values) dgo.Value {
-	var ad *url.URL
-	var err error
-
+	// The name is not parsed since it may contain characters, such as '?', that have a special meaning in a URL
+	ad := &url.URL{Scheme: `http`, Host: p.addr, Path: `/` + luType + `/` + name}
 	if p.network == pluginTransportUnix {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.network, luType, name))
-	} else {
-		ad, err = url.Parse(fmt.Sprintf(`http://%s/%s/%s`, p.addr, luType, name))
-	}
-	if err != nil {
-		panic(err)
+		ad.Host = p.network
 	}
 	if len(params) > 0 {
 		ad.RawQuery = params.Encode()
-- 
2.43.0


From 954a2bdbc591b05610228eeb0849036de5308b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:34 +0000
Subject: [PATCH 42/43] fix: which of several modules, with names that differ
 in case only, was used depended on the order in which the file system lists
 them

---
 provider/modulelookupkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/provider/modulelookupkey.go b/provider/modulelookupkey.go
index bd68a86..96e3ccf 100644
--- a/provider/modulelookupkey.go
+++ b/provider/modulelookupkey.go
@@ -1,6 +1,7 @@
 package provider
 
 import (
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -65,7 +66,9 @@ func loadModuleProvider(ic api.Invocation, moduleName string) dgo.Function {
 }
 
 func loadModule(path, moduleName string) dgo.Function {
-	f, err := os.Open(path)
+	// Lookup module by finding a directory that matches the moduleName using case insensitive string comparison. The
+	// names are sorted so that the same directory is found regardless of the order that the file system lists them.
+	fileInfos, err := ioutil.ReadDir(path)
 	if err != nil {
 		if os.IsNotExist(err) {
 			return nil
@@ -73,13 +76,6 @@ func loadModule(path, moduleName string) dgo.Function {
 		panic(err)
 	}
 
-	// Lookup module by finding a directory that matches the moduleName using case insensitive string comparison
-	fileInfos, err := f.Readdir(-1)
-	_ = f.Close()
-	if err != nil {
-		panic(err)
-	}
-
 	for _, fi := range fileInfos {
 		if !strings.EqualFold(fi.Name(), moduleName) {
 			continue
-- 
2.43.0


From 8005b1541be23ad6bbc9837dff029a7666e735a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:15 +0000
Subject: [PATCH 43/43] fix: of the functions of a plugin that have the same
 name, but are of different kinds, an arbitrary one was called

---
 session/pluginloader.go | 16 ++++++++++++----
 session/session.go      |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/session/pluginloader.go b/session/pluginloader.go
index b26c10f..8edc261 100644
--- a/session/pluginloader.go
+++ b/session/pluginloader.go
@@ -22,6 +22,7 @@ import (
 	"github.com/lyraproj/dgo/loader"
 	"github.com/lyraproj/dgo/streamer"
 	"github.com/lyraproj/dgo/vf"
+	"github.com/lyraproj/hiera/api"
 	"github.com/lyraproj/hierasdk/hiera"
 	log "github.com/sirupsen/logrus"
 )
@@ -299,22 +300,29 @@ func (p *plugin) initialize(meta map[string]interface{}) {
 
 type luDispatch func(string) dgo.Function
 
+// pluginFunctionName returns the name that the loader of a plugin uses for a function. It includes the kind, because a
+// plugin may have functions of different kinds with the same name.
+func pluginFunctionName(kind api.FunctionKind, name string) string {
+	return string(kind) + `/` + name
+}
+
 func (p *plugin) functionMap() dgo.Value {
 	m := vf.MutableMap()
 	for k, v := range p.functions {
 		names := v.([]interface{})
+		var kind api.FunctionKind
 		var df luDispatch
 		switch k {
 		case `data_dig`:
-			df = p.dataDigDispatch
+			kind, df = api.KindDataDig, p.dataDigDispatch
 		case `data_hash`:
-			df = p.dataHashDispatch
+			kind, df = api.KindDataHash, p.dataHashDispatch
 		default:
-			df = p.lookupKeyDispatch
+			kind, df = api.KindLookupKey, p.lookupKeyDispatch
 		}
 		for _, x := range names {
 			n := x.(string)
-			m.Put(n, df(n))
+			m.Put(pluginFunctionName(kind, n), df(n))
 		}
 	}
 	return loader.Multiple(m)
diff --git a/session/session.go b/session/session.go
index e988a65..6fc3ee0 100644
--- a/session/session.go
+++ b/session/session.go
@@ -201,7 +201,7 @@ func (s *session) LoadFunction(he api.Entry) (fn dgo.Function, ok bool) {
 		}
 	}
 
-	fn, ok = l.Get(n).(dgo.Function)
+	fn, ok = l.Get(pluginFunctionName(he.Function().Kind(), n)).(dgo.Function)
 	return fn, ok
 }
 
-- 
2.43.0

