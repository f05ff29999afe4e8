//go:build go1.23

package main

import (
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
)

// demo: definitions PostgreSQL prints that the parsers refuse.
func demo(prop, key, kind string, texts ...string) {
	Known(prop, key, func(c *Ctx) {
		for _, text := range texts {
			if _, _, ok := loose(kind, text); !ok {
				Harnessf("no definition: %s", text)
			}
			_, err := parse(c, kind, text)
			c.Check(err == nil, "refused: %s", text)
		}
	})
}

func init() {
	demo("D03", "suffix", "check", "CHECK ((a > 0)) NO INHERIT", "CHECK ((a > 0)) NOT VALID")
	demo("D04", "update-first", "fk", "FOREIGN KEY (a) REFERENCES t(b) ON UPDATE CASCADE ON DELETE CASCADE")
	demo("D04", "names", "fk", "FOREIGN KEY (_a) REFERENCES t(b)", `FOREIGN KEY ("A b") REFERENCES t(b)`, "FOREIGN KEY (a) REFERENCES other.t(b)")
	demo("D04", "not-valid", "fk", "FOREIGN KEY (a) REFERENCES t(b) NOT VALID")
	demo("D05", "names", "index", "CREATE INDEX _i ON t USING btree (a)", `CREATE INDEX i ON "T" USING btree (a)`, "CREATE INDEX i ON other.t USING btree (a)")
	demo("D05", "nested", "index", "CREATE INDEX i ON t USING btree (((a + (b))))", "CREATE INDEX i ON t USING btree (lower(trim(a)))")
	demo("D05", "later-expression", "index", "CREATE INDEX i ON t USING btree (a, lower(b))")
	demo("D05", "options", "index", "CREATE INDEX i ON t USING btree (a text_ops DESC)", "CREATE INDEX i ON t USING btree (a DESC NULLS LAST)", `CREATE INDEX i ON t USING btree (a COLLATE "C")`, "CREATE INDEX i ON t USING btree (a) WITH (fillfactor='70')", "CREATE INDEX i ON t USING btree (a) INCLUDE (b)")
	demo("D06", "not-deferrable", "trigger", "CREATE CONSTRAINT TRIGGER a AFTER INSERT ON t NOT DEFERRABLE INITIALLY IMMEDIATE FOR EACH ROW EXECUTE FUNCTION f()")
	demo("D06", "deferrable", "trigger", "CREATE CONSTRAINT TRIGGER a AFTER INSERT ON t DEFERRABLE FOR EACH ROW EXECUTE FUNCTION f()")
	demo("D06", "names", "trigger", "CREATE TRIGGER _a AFTER INSERT ON t FOR EACH ROW EXECUTE FUNCTION f()", `CREATE TRIGGER a AFTER INSERT ON "T" FOR EACH ROW EXECUTE FUNCTION f()`, "CREATE TRIGGER a AFTER INSERT ON t FOR EACH ROW EXECUTE FUNCTION s.f()")
	demo("D06", "condition", "trigger", "CREATE TRIGGER a AFTER INSERT ON t FOR EACH ROW WHEN (new.a > 0) EXECUTE FUNCTION f()", "CREATE TRIGGER a AFTER INSERT ON t FOR EACH ROW EXECUTE FUNCTION f('x')", "CREATE TRIGGER a AFTER INSERT ON t REFERENCING NEW TABLE AS n FOR EACH STATEMENT EXECUTE FUNCTION f()")
}
