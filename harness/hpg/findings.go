//go:build go1.23

package main

import (
	"github.com/sjansen/pgutil/internal/pg"
	. "github.com/sjansen/pgutil/internal/zzverif/engine"
)

func init() {
	// sorting indexes compares schemas, tables and names all at once, which is
	// never true of indexes that arrive ordered by schema and table
	Known("P04", "index-order", func(c *Ctx) {
		cat := &Cat{Rels: []Rel{{Name: "t", Kind: "r", Cols: []Col{{Name: "a"}, {Name: "b"}},
			Idx: []Idx{{Name: "t_b", Using: "btree", Keys: []IdxKey{{Col: 1}}}, {Name: "t_c", Using: "btree", Unique: true, Keys: []IdxKey{{Col: 0}}}}}}}
		cat.Path = []int{0}
		cat.normalise()
		with(c, cat, nil, func(b *backend, conn *pg.Conn) {
			db, err := inspectAll(c, conn, &pg.InspectOptions{SortIndexes: true})
			if err != nil || len(db.Indexes) != 2 {
				return // something else is wrong, which the check finds
			}
			c.Check(db.Indexes[0].Name == "t_b", "index t_c is listed before t_b although indexes are to be sorted")
		})
	})
	// the definitions of a relation that isn't visible without its schema, or
	// whose name needs quotes, are refused by the parsers (D04 to D06)
	Known("P01", "names", func(c *Ctx) {
		for _, name := range []S{"T", "_t"} {
			cat := &Cat{Rels: []Rel{{Name: "plain", Kind: "r", Cols: []Col{{Name: "a"}}, Idx: []Idx{{Name: "i", Using: "btree", Keys: []IdxKey{{Col: 0}}}}}}}
			cat.Path = []int{0}
			cat.normalise()
			cat.Rels[0].Name = name
			with(c, cat, nil, func(b *backend, conn *pg.Conn) {
				_, err := inspectAll(c, conn, nil)
				c.Check(err == nil, "a database with an index of table %q can't be inspected: %v", string(name), err)
			})
		}
	})
}
