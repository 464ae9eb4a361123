# changes that show only when there is much of something
import re as _re
_dir = "/verif/tools/seeds/"


def _helper(file, name):
    s = open(_dir + file).read()
    m = _re.search(r"^%s = '''(.*?)'''" % name, s, _re.S | _re.M)
    return eval("'''" + m.group(1) + "'''")


V = _helper("values.py", "H")
PR = _helper("prov.py", "D")
XH = _helper("xsql.py", "H")
XD = _helper("xsql.py", "D")
MR = _helper("migr.py", "R")
SC = _helper("schema.py", "D")
GD = _helper("gen.py", "D")
C = "xsql/cache.go"

plant("S03-cache-hash", "S03", [(C, "	res, ok := d.cache.Load(name)\n", "	res, ok := d.cache.Load(cacheKey(name))\n"), (C, "	d.cache.Store(name, sql)\n", "	d.cache.Store(cacheKey(name), sql)\n"), (C, "import (\n", "import (\n	\"hash/fnv\"\n"), (C, "// bufToString returns", "// cacheKey keeps long texts out of the map\nfunc cacheKey(name string) uint32 {\n	h := fnv.New32a()\n	_, _ = h.Write([]byte(name))\n	return h.Sum32()\n}\n\n// bufToString returns")], "xsql", XH + '''
	for i := 0; i < 250000; i++ {
		q := Postgres.From(fmt.Sprintf("t%d", i)).Where("a = ?", i)
		got := q.String()
		if want := fmt.Sprintf("FROM t%d \\nWHERE a = $1", i); got != want {
			t.Fatal(got, want)
		}
		q.Close()
	}
}
''', "two statements, among very many, of which the texts have the same 32-bit hash", "one of them is executed in place of the other")

plant("C01-position-byte", "C01", [("schema/provider.go", "			return c.Columns[i].Position < c.Columns[j].Position", "			return uint8(c.Columns[i].Position) < uint8(c.Columns[j].Position)")], "schema", SC + '''
	z := &zzDB{}
	for i := 1; i <= 300; i++ {
		z.views = append(z.views, []driver.Value{"s", "v", fmt.Sprintf("c%d", i), "int", "int4", "NO", nil, int64(i)})
	}
	tt, err := NewProvider(sql.OpenDB(z), "postgres").ListViews(ctx, nil, nil)
	if err != nil || len(tt) != 1 || len(tt[0].Columns) != 300 {
		t.Fatal(tt, err)
	}
	for i, c := range tt[0].Columns {
		if c.Name != fmt.Sprintf("c%d", i+1) {
			t.Fatal(i, c.Name)
		}
	}
}
''', "a view with more than 255 columns", "the columns are not in the order of their positions")

plant("C03-null-wide", "C03", [("schema/schema.go", "		if nullColumns[c] {\n", "		if nulls&(1<<uint(i)) != 0 {\n"), ("schema/schema.go", "	prefixed := make([]string, len(t.Columns))\n", "	prefixed := make([]string, len(t.Columns))\n	var nulls uint64\n	for i := range t.Columns {\n		if nullColumns[t.Columns[i]] {\n			nulls |= 1 << uint(i)\n		}\n	}\n")], "schema", SC + '''
	ti := &TableInfo{}
	for i := 0; i < 70; i++ {
		ti.Columns = append(ti.Columns, fmt.Sprintf("c%d", i))
	}
	s := ti.AliasedColumns("a", map[string]bool{"c3": true, "c66": true})
	if l := strings.Split(s, ", "); l[3] != "NULL" || l[66] != "NULL" {
		t.Fatal(s)
	}
}
''', "a column after the 64th is to be left out of a query", "it is read")

plant("R01-version-32", "R01", [("migrate/migrate.go", "		err = m.Migrate(uint(migrateVersion))\n", "		err = m.Migrate(uint(uint32(migrateVersion)))\n")], "migrate", MR + '''
	for _, v := range []string{"20230101120000", "20230101120007"} {
		if err := os.WriteFile(filepath.Join(dir, v+"_x.up.sql"), []byte("-- step up"+v), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	if err := Migrate("postgres", "x", dir, 0, 20230101120000, db); err != nil || z.version != 20230101120000 {
		t.Fatal(err, z.version)
	}
}
''', "versions that are dates with time, and a version to migrate to", "the migration fails, or leads to another version")

plant("P02-gives-up", "P02", [("prov.go", "	go func() {\n		for {\n			select {\n			case <-done:", "	go func(failures int) {\n		for {\n			select {\n			case <-done:"), ("prov.go", '''"reason", "ping", "err", err.Error())
''', '''"reason", "ping", "err", err.Error())
					if failures++; failures == 10 {
						return
					}
'''), ("prov.go", "			}\n		}\n	}()\n}\n\n// BeginTx", "			}\n		}\n	}(0)\n}\n\n// BeginTx")], ".", PR.split("func TestZZDemo")[0] + '''
type zzPing struct {
	*zzConn
	n chan int
}

func (c *zzPing) Connect(context.Context) (driver.Conn, error) { return c, nil }
func (c *zzPing) Ping(context.Context) error {
	c.n <- 1
	return errors.New("the server is away")
}

func TestZZDemo(t *testing.T) {
	c := &zzPing{&zzConn{}, make(chan int)}
	p := &SQLProvider{conn: sql.OpenDB(c)}
	p.keepAlive(time.Millisecond)
	for i := 0; i < 25; i++ {
		select {
		case <-c.n:
		case <-time.After(5 * time.Second):
			t.Fatal("no check after", i)
		}
	}
	go func() {
		for range c.n {
		}
	}()
	p.stop()
}
''', "a server that is away for ten checks of the keep-alive", "the connection is never checked again")

plant("S06-row-cap", "S06", [("xsql/executor.go", "	for rows.Next() {\n", "	for n := 0; n < maxRows && rows.Next(); n++ {\n"), ("xsql/executor.go", "		return err\n	}\n\n	// The handler may panic", "		return err\n	}\n\n	// a handler keeps the rows in memory\n	const maxRows = 10000\n\n	// The handler may panic")], "xsql", XD + '''
	z := &zzConn{}
	for i := 0; i < 10500; i++ {
		z.rows = append(z.rows, []driver.Value{int64(i)})
	}
	var a int64
	n := 0
	err := From("t").Select("a").To(&a).QueryAndClose(context.Background(), sql.OpenDB(z), func(*sql.Rows) { n++ })
	if err != nil || n != 10500 {
		t.Fatal(err, n)
	}
}
''', "a query with more than 10000 rows", "the rows after them are silently left out")

plant("Q03-enum-many", "Q03", [("params.go", "		for _, e := range b.enums {\n			n.", "		for i, e := range b.enums {\n			if i == 16 {\n				break\n			}\n			n.")], ".", V + '''
	q := func(last int32) string {
		p := NewQueryParams("q")
		for i := uint32(1); i <= 17; i++ {
			v := int32(1)
			if i == 17 {
				v = last
			}
			p.SetEnum(i, v)
		}
		return p.Name()
	}
	if a, b := q(1), q(2); a == b {
		t.Fatal(a)
	}
}
''', "more than 16 enumerated parameters", "sets that differ in the last ones have the same name, and use the SQL of one another")

plant("G02-index-rows", "G02", [("pkg/print/schema.go", "	for _, c := range r {\n		_ = table.Append([]string{\n			c.Name,\n			values", "	for i, c := range r {\n		if i == 100 {\n			_ = table.Append([]string{\"...\", \"\", \"\", \"\"})\n			break\n		}\n		_ = table.Append([]string{\n			c.Name,\n			values")], "internal/cli/schema", GD + '''
	var b bytes.Buffer
	var l schema.Indexes
	for i := 0; i < 120; i++ {
		l = append(l, &schema.Index{Name: fmt.Sprintf("ix%03d", i), ColumnNames: []string{"a"}})
	}
	print.SchemaIndexes(&b, l)
	if !strings.Contains(b.String(), "ix119") {
		t.Fatal(b.String())
	}
}
''', "more than 100 indexes", "the others are not printed")
