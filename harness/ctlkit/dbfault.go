package ctlkit

import (
	"fmt"
	"path/filepath"

	"verif/vt"

	"github.com/mutecomm/mute/encdb"
)

// DBFault makes an operation (INSERT, UPDATE or DELETE) on a table of a
// database (msgs or keys) of a person fail after it has worked n times. It
// returns a function which ends this.
func (p *Person) DBFault(db, table, op string, n int) (end func()) {
	p.dbExec(db, "CREATE TABLE VerifCount (N INTEGER)",
		fmt.Sprintf("CREATE TRIGGER VerifFault BEFORE %s ON %s BEGIN INSERT INTO VerifCount VALUES (1);"+
			" SELECT CASE WHEN (SELECT count(*) FROM VerifCount) > %d THEN RAISE(ABORT, 'database or disk is full') END; END", op, table, n))
	return func() { p.dbExec(db, "DROP TRIGGER VerifFault", "DROP TABLE VerifCount") }
}

func (p *Person) dbExec(db string, stmts ...string) {
	d, err := encdb.Open(filepath.Join(p.Dir, db), []byte(p.Pass))
	vt.InfraIf(err)
	for _, s := range stmts {
		_, err := d.Exec(s)
		vt.InfraIf(err)
	}
	vt.InfraIf(d.Close())
}
