# changes of the migrations; the demonstrations run them on a small model of the database
MG = "migrate/migrate.go"
R = '''package migrate

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"
)

// zzDB is as much of a Postgres as the migrations need
type zzDB struct {
	version int64
	dirty   bool
	has     bool
	ran     []string
	fail    string
}
type zzConn struct{ *zzDB }
type zzStmt struct {
	*zzDB
	q string
}
type zzRows struct{ rows [][]driver.Value }

func (d *zzDB) Connect(context.Context) (driver.Conn, error) { return &zzConn{d}, nil }
func (d *zzDB) Driver() driver.Driver                         { return nil }
func (c *zzConn) Prepare(q string) (driver.Stmt, error)       { return &zzStmt{c.zzDB, q}, nil }
func (c *zzConn) Close() error                                { return nil }
func (c *zzConn) Begin() (driver.Tx, error)                   { return c, nil }
func (c *zzConn) Commit() error                               { return nil }
func (c *zzConn) Rollback() error                             { return nil }
func (s *zzStmt) Close() error                                { return nil }
func (s *zzStmt) NumInput() int                               { return -1 }
func (s *zzStmt) Exec(a []driver.Value) (driver.Result, error) {
	switch {
	case strings.Contains(s.q, "TRUNCATE"):
		s.has = false
	case strings.Contains(s.q, "INSERT INTO"):
		s.version, s.dirty, s.has = a[0].(int64), a[1].(bool), true
	case strings.HasPrefix(s.q, "-- step "):
		q := strings.TrimSpace(strings.TrimPrefix(s.q, "-- step "))
		if q == s.fail {
			return nil, errors.New("the step fails")
		}
		s.ran = append(s.ran, q)
	}
	return driver.RowsAffected(1), nil
}
func (s *zzStmt) Query(a []driver.Value) (driver.Rows, error) {
	r := &zzRows{}
	switch {
	case strings.Contains(s.q, "CURRENT_DATABASE"), strings.Contains(s.q, "CURRENT_SCHEMA"):
		r.rows = [][]driver.Value{{"x"}}
	case strings.Contains(s.q, "COUNT(1)"):
		r.rows = [][]driver.Value{{int64(1)}}
	case strings.Contains(s.q, "version, dirty"):
		if s.has {
			r.rows = [][]driver.Value{{s.version, s.dirty}}
		}
	default:
		return nil, errors.New("unexpected query: " + s.q)
	}
	return r, nil
}
func (r *zzRows) Columns() []string {
	if len(r.rows) == 0 || len(r.rows[0]) == 2 {
		return []string{"version", "dirty"}
	}
	return []string{"a"}
}
func (r *zzRows) Close() error { return nil }
func (r *zzRows) Next(d []driver.Value) error {
	if len(r.rows) == 0 {
		return io.EOF
	}
	copy(d, r.rows[0])
	r.rows = r.rows[1:]
	return nil
}

func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for _, v := range []string{"1", "2", "3"} {
		for _, k := range []string{"up", "down"} {
			if err := os.WriteFile(filepath.Join(dir, v+"_x."+k+".sql"), []byte("-- step "+k+v), 0o600); err != nil {
				t.Fatal(err)
			}
		}
	}
	z := &zzDB{}
	db := sql.OpenDB(z)
'''

plant("R01-force-stale", "R01", [(MG, "	if migrateVersion > 0 {\n", "	if migrateVersion > 0 && uint(migrateVersion) != version {\n"), (MG, "		err = m.Migrate(uint(migrateVersion))\n	} else {\n", "		err = m.Migrate(uint(migrateVersion))\n	} else if migrateVersion > 0 {\n		err = migrate.ErrNoChange\n	} else {\n")], "migrate", R + '''
	z.has, z.version = true, 3
	if err := Migrate("postgres", "x", dir, 1, 3, db); err != nil {
		t.Fatal(err)
	}
	if got := strings.Join(z.ran, " "); got != "up2 up3" || z.version != 3 {
		t.Fatal(got, z.version)
	}
}
''', "a version is forced, and then the migration goes to the version the database was at before", "the steps are skipped and success is reported")

plant("R01-missing-version", "R01", [(MG, "		err = m.Migrate(uint(migrateVersion))\n", "		if err = m.Migrate(uint(migrateVersion)); errors.Is(err, os.ErrNotExist) {\n			// not in this release yet: go as far as there is\n			err = m.Up()\n		}\n")], "migrate", R + '''
	z.has, z.version = true, 3
	if err := Migrate("postgres", "x", dir, 0, 7, db); err == nil {
		t.Fatal("there is no version 7")
	}
}
''', "a version is asked for that is not in the directory", "the latest version is reached instead, and success is reported")

plant("R01-dirty-force", "R01", [(MG, "	version, _, err := m.Version()\n", "	version, dirty, err := m.Version()\n"), (MG, "	if forceVersion > 0 {\n", "	if dirty && forceVersion == 0 && migrateVersion > int(version) {\n		// the step is repaired by hand\n		forceVersion = int(version)\n	}\n	if forceVersion > 0 {\n")], "migrate", R + '''
	z.fail = "up2"
	if err := Migrate("postgres", "x", dir, 0, 3, db); err == nil {
		t.Fatal("a failed step is reported as success")
	}
	z.fail = ""
	if err := Migrate("postgres", "x", dir, 0, 3, db); err == nil {
		t.Fatal("step 2 is taken as done", z.ran)
	}
}
''', "a run to a version after one that failed in the middle of a step", "the failed step is taken as done")

plant("R01-force-zero", "R01", [(MG, "		err = m.Force(forceVersion)\n		if err != nil {\n", "		if version == uint(forceVersion) {\n			err = nil\n		} else {\n			err = m.Force(forceVersion)\n		}\n		if err != nil {\n")], "migrate", R + '''
	z.has, z.version, z.dirty = true, 2, true
	if err := Migrate("postgres", "x", dir, 2, 3, db); err != nil || z.dirty || z.version != 3 {
		t.Fatal(err, z.dirty, z.version)
	}
}
''', "the version that failed is forced, as after a repair by hand", "the database stays dirty and is not migrated")

