# further changes, over all parts
import re as _re
_src = lambda f: open(os.path.join(os.path.dirname(os.path.abspath(f)), "")).read()
_dir = "/verif/tools/seeds/"


def _helper(file, name):
    s = open(_dir + file).read()
    m = _re.search(r"^%s = '''(.*?)'''" % name, s, _re.S | _re.M)
    return eval("'''" + m.group(1) + "'''")


V = _helper("values.py", "H")
PR = _helper("prov.py", "D")
FH = _helper("prov.py", "FH")
XH = _helper("xsql.py", "H")
XD = _helper("xsql.py", "D")
F = "pkg/flake/flake.go"

plant("F01-overflow", "F01", [(F, "			sf.elapsedTime++\n			overtime := sf.elapsedTime - current\n", "			overtime := int64(1)\n			sf.elapsedTime = current + overtime\n")], "pkg/flake", FH + '''
	defer func() { NowFunc = time.Now }()
	base := time.Now()
	now := base
	NowFunc = func() time.Time { return now }
	g := NewIDGenerator(Settings{})
	seen := map[uint64]bool{}
	take := func(n int) {
		for i := 0; i < n; i++ {
			id := g.NextID()
			if seen[id] {
				t.Fatal("twice", Decompose(id))
			}
			seen[id] = true
		}
	}
	take(100)
	now = base.Add(50 * time.Millisecond)
	take(100)
	now = base.Add(-20 * time.Millisecond)
	take(1000)
}
''', "the clock goes back, and the sequence of the last millisecond is used up before it catches up", "IDs are given twice")

plant("I01-sort-signed", "I01", [("id.go", "		return n[i].UInt64() < n[j].UInt64()\n	})\n	return n\n}\n\n// Int64Array returns pq.Int64Array\nfunc (n", "		return int64(n[i].UInt64()) < int64(n[j].UInt64())\n	})\n	return n\n}\n\n// Int64Array returns pq.Int64Array\nfunc (n")], ".", V + '''
	l := IDArray{NewID(1 << 63), NewID(5), NewID(7)}.Sort()
	if l[0].UInt64() != 5 || l[2].UInt64() != 1<<63 {
		t.Fatal(l)
	}
}
''', "a list with an ID of 2^63 or more", "the list is not sorted")

plant("I01-concat-alias", "I01", [("id.go", "	if len(other) < len(n) {\n		return other.Concat(n)\n	}\n	for _, id := range other {\n		n = n.Add(id)\n	}\n	return n\n", "	for _, id := range other {\n		if n.Contains(id) {\n			continue\n		}\n		n = append(n, id)\n	}\n	return n\n")], ".", V + '''
	base := make(IDArray, 1, 4)
	base[0] = NewID(1)
	a := base.Concat(IDArray{NewID(2)})
	_ = base.Concat(IDArray{NewID(3)})
	if a.String() != "1,2" {
		t.Fatal(a)
	}
}
''', "a list with spare capacity is extended twice", "the first result changes")

plant("S06-row-ctx", "S06", [("xsql/executor.go", "	row := db.QueryRowContext(ctx, q.String(), q.args...)\n	return row.Scan(q.dest...)\n", "	// the row is read after the call: it must not depend on the caller's context\n	row := db.QueryRowContext(context.WithoutCancel(ctx), q.String(), q.args...)\n	return row.Scan(q.dest...)\n")], "xsql", XD + '''
	db := sql.OpenDB(&zzConn{rows: [][]driver.Value{{int64(1)}}})
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	var a int64
	if err := From("t").Select("a").To(&a).QueryRow(ctx, db); err == nil {
		t.Fatal("executed under a cancelled context")
	}
}
''', "a query of one row under a cancelled context, or one with a deadline", "it is executed all the same")

plant("S02-default-delete", "S02", [("xsql/stmt.go", "	return defaultDialect.Load().(SQLDialect).DeleteFrom(tableName)\n", "	return NoDialect.DeleteFrom(tableName)\n")], "xsql", XH + '''
	SetDialect(Postgres)
	defer SetDialect(NoDialect)
	if got := flat(DeleteFrom("t").Where("a = ?", 1).String()); got != "DELETE FROM t WHERE a = $1" {
		t.Fatal(got)
	}
}
''', "the default dialect is Postgres, and a DELETE is started from the package", "its placeholders are those of another dialect")

plant("M01-null-space", "M01", [("merge.go", "				val := src.String()\n				if val != \"\" {", "				val := src.String()\n				if len(val) > len(dst.String()) || val != \"\" && dst.Len() > 0 && val[0] != ' ' {")], ".", V + '''
	type r struct{ N NULLString }
	d := r{"abc"}
	if err := Merge(&d, &r{" x"}); err != nil || d.N != " x" {
		t.Fatal(d, err)
	}
}
''', "a string that begins with a space replaces a longer one", "the old one stays")

plant("V02-metadata-keep", "V02", [("types.go", "	if len(s) == 0 {\n		*n = KVSet{}\n		return nil\n	}\n	// do not decode into the previous value\n	*n = nil\n	return", "	if len(s) == 0 {\n		if *n == nil {\n			*n = KVSet{}\n		}\n		return nil\n	}\n	// do not decode into the previous value\n	*n = nil\n	return")], ".", V + '''
	var n KVSet
	_ = n.Scan(`{"a":["1"]}`)
	if err := n.Scan(""); err != nil || len(n) != 0 {
		t.Fatal(n, err)
	}
}
''', "a row with an empty text is read into the variable of a row before", "the value of the other row stays")

plant("M01-meta-empty", "M01", [("types.go", "	for k, v := range m {\n		tm[k] = v\n	}\n", "	for k, v := range m {\n		if v != \"\" || tm[k] == \"\" {\n			tm[k] = v\n		}\n	}\n")], ".", V + '''
	n := Metadata{"a": "1"}
	n.Merge(Metadata{"a": "", "b": ""})
	if _, ok := n["b"]; !ok || n["a"] != "" {
		t.Fatal(n)
	}
}
''', "an empty value is merged over a value", "the value that was there stays")

plant("V03-time-round", "V03", [("time.go", "	return t.MarshalJSON()\n", "	return t.Round(time.Microsecond).MarshalJSON()\n")], ".", V + '''
	in := Time(time.Date(2024, 5, 6, 1, 2, 3, 123456789, time.UTC))
	b, err := json.Marshal(in)
	if err != nil {
		t.Fatal(err)
	}
	var out Time
	if err = json.Unmarshal(b, &out); err != nil || !time.Time(in).Equal(time.Time(out)) {
		t.Fatal(string(b), err)
	}
}
''', "a time with nanoseconds", "what is written is not the time")

plant("T01-json-zone", "T01", [("time.go", "	return errors.WithStack(json.Unmarshal([]byte(data), (*time.Time)(ns)))\n", "	var t time.Time\n	if err := json.Unmarshal([]byte(data), &t); err != nil {\n		return errors.WithStack(err)\n	}\n	*ns = Time(time.Unix(t.Unix(), int64(t.Nanosecond())))\n	return nil\n")], ".", V + '''
	var a Time
	if err := json.Unmarshal([]byte(`"0001-01-01T00:00:00Z"`), &a); err != nil || !a.IsZero() || a.String() != "" {
		t.Fatal(a, err)
	}
	if err := json.Unmarshal([]byte(`"2024-01-01T00:00:00+05:00"`), &a); err != nil || a.String() != "2023-12-31T19:00:00Z" {
		t.Fatal(a, err)
	}
	t.Skip()
}
''', "x", "x") if False else None
