CLI="src/libferry/main.go"; ESC="src/ferryd/core/escape.go"; TRM="src/ferryd/core/transit_manifest.go"; LDB="src/libdb/leveldb.go"
seed("c36-quiet-refusal","C36","the daemon cannot store the job of a request",
 "the client library ignores the answer to a refused request and reports success",
 [(CLI,"""	defer resp.Body.Close()
	if resp.ContentLength > 0 {
		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
			return e
		}
	}
	fc := outT""","""	defer resp.Body.Close()
	if resp.ContentLength > 0 && resp.StatusCode == http.StatusOK {
		if e = json.NewDecoder(resp.Body).Decode(outT); e != nil {
			return e
		}
	}
	fc := outT""")],
"""func TestDemo(t *testing.T) {
	sock := filepath.Join(t.TempDir(), "s")
	l, err := net.Listen("unix", sock)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := json.Marshal(&Response{Error: true, ErrorString: "full"})
		w.WriteHeader(http.StatusBadRequest)
		w.Write(b)
	}))
	c := NewClient(sock)
	defer c.Close()
	if c.CreateRepo("a") == nil {
		t.Fatal("a refused request looks accepted")
	}
}""",pkg="libferry",helper="empty_libferry.go.txt",imports=("encoding/json","net","net/http","path/filepath"))
seed("c18-cutset","C18","a key begins with characters that also occur in the name of its bucket",
 "iteration shows such keys without their first characters",
 [(LDB,"""		newKey := bytes.TrimPrefix(key, l.keyPrefix)

		if err :=""","""		newKey := bytes.TrimLeft(key, string(l.keyPrefix))

		if err :=""")],
"""func TestDemo(t *testing.T) {
	db, err := Open(filepath.Join(t.TempDir(), "db"))
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	b := db.Bucket([]byte("pool"))
	b.PutObject([]byte("look"), "x")
	b.ForEach(func(k, v []byte) error {
		if string(k) != "look" {
			t.Fatal(string(k))
		}
		return nil
	})
}""",pkg="libdb",helper="libdb_helper.go.txt",imports=("path/filepath",))
seed("c23-short-sum","C23","the manifest lists only the beginning of a checksum",
 "a shortened checksum verifies",
 [(TRM,"""		if sha != f.Sha256 {""","""		if !strings.HasPrefix(sha, f.Sha256) {""")],
"""func TestDemo(t *testing.T) {
	dir := t.TempDir()
	os.WriteFile(filepath.Join(dir, "a.eopkg"), []byte("x"), 0644)
	tram := filepath.Join(dir, "a.tram")
	os.WriteFile(tram, []byte("[manifest]\\nversion = '1.0'\\ntarget = 'a'\\n[[file]]\\npath = 'a.eopkg'\\nsha256 = '2d'\\n"), 0644)
	m, err := NewTransitManifest(tram)
	if err != nil {
		t.Fatal(err)
	}
	if m.ValidatePayload() == nil {
		t.Fatal("a shortened checksum verifies")
	}
}""",imports=("os","path/filepath"))
seed("c12-later-delta","C12","a repository lists a delta to a release that is newer than its published one",
 "the index offers a delta that does not lead to the published release",
 [(INDEX,"""		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {""","""		if poolEnt.Delta.ToRelease < entry.Meta.GetRelease() {""")],
"""func TestDemo(t *testing.T) {
	d := newDemo(t)
	d.ok(d.m.CreateRepo("a"))
	d.ok(d.m.CreateRepo("b"))
	for i := 1; i < 4; i++ {
		d.add("a", "foo", "foo", i)
	}
	d.add("b", "foo", "foo", 1)
	d.add("b", "foo", "foo", 2)
	d.delta("a", "foo", "foo", 1, 3)
	id := deltaID("foo", 1, 3)
	d.ok(d.m.RefDelta("b", id))
	d.ok(d.m.Index("b"))
	if b, _ := os.ReadFile(filepath.Join(d.base, "repo", "b", "eopkg-index.xml")); strings.Contains(string(b), id) {
		t.Fatal("useless delta published")
	}
}""",imports=("os","path/filepath","strings"))
