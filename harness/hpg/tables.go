//go:build go1.23

package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	. "github.com/sjansen/pgutil/internal/zzverif/engine"
	"github.com/sjansen/pgutil/internal/zzverif/fakepg"
	"github.com/sjansen/pgutil/internal/zzverif/minisql"
)

type V = minisql.Value

// Object ids of the catalogs themselves.
const (
	classClass, classNamespace, classProc, classConstraint, classTrigger = 1259, 2615, 1255, 2606, 2620
	classAttrdef, classType                                              = 2604, 1247
)

// entry is a relation as pg_class holds it.
type entry struct {
	oid, ns    int64
	name, kind string
	rel        int // into Cat.Rels, -1 if none
	idx        *Idx
}

// world is a catalog laid out in tables.
type world struct {
	c        *Cat
	db       *minisql.DB
	tables   map[string]*minisql.Table
	entries  []*entry
	byOid    map[int64]*entry
	relOid   []int64
	path     []int64 // namespaces searched, pg_catalog first
	nsName   map[int64]string
	roles    map[int64]string
	descr    map[[3]int64]string
	cons     map[int64]func(pretty bool) string
	trigs    map[int64]func(pretty bool) string
	procs    map[int64]procInfo
	procList []procInfo
	typeText map[[2]int64]string
}

type procInfo struct {
	oid, ns             int64
	name, args, returns string
}

var cols = map[string]string{
	"pg_namespace":   "oid:oid nspname:name nspowner:oid",
	"pg_class":       "oid:oid relname:name relnamespace:oid reltype:oid reloftype:oid relowner:oid relam:oid relfilenode:oid reltablespace:oid relpages:int4 reltuples:int8 reltoastrelid:oid relhasindex:bool relisshared:bool relpersistence:char relkind:char relnatts:int2 relchecks:int2 relhasrules:bool relhastriggers:bool relhassubclass:bool relispopulated:bool relreplident:char relispartition:bool reloptions:_text relrowsecurity:bool relforcerowsecurity:bool relallvisible:int4",
	"pg_attribute":   "attrelid:oid attname:name atttypid:oid attlen:int2 attnum:int2 attndims:int4 atttypmod:int4 attnotnull:bool atthasdef:bool attisdropped:bool attislocal:bool attinhcount:int4 attidentity:char attbyval:bool attalign:char attstorage:char attcollation:oid atthasmissing:bool",
	"pg_attrdef":     "oid:oid adrelid:oid adnum:int2 adbin:node adsrc:text",
	"pg_proc":        "oid:oid proname:name pronamespace:oid proowner:oid prolang:oid prosrc:text prokind:char proisagg:bool proiswindow:bool proretset:bool proisstrict:bool pronargs:int2 prosecdef:bool proleakproof:bool provolatile:char proparallel:char pronargdefaults:int2 prorettype:oid provariadic:oid",
	"pg_language":    "oid:oid lanname:name lanowner:oid lanispl:bool lanpltrusted:bool",
	"pg_constraint":  "oid:oid conname:name connamespace:oid contype:char condeferrable:bool condeferred:bool convalidated:bool conrelid:oid contypid:oid conindid:oid confrelid:oid confupdtype:char confdeltype:char confmatchtype:char conislocal:bool coninhcount:int4 connoinherit:bool conkey:_int2 confkey:_int2 conbin:node consrc:text conparentid:oid",
	"pg_index":       "indexrelid:oid indrelid:oid indnatts:int2 indisunique:bool indisprimary:bool indisexclusion:bool indimmediate:bool indisclustered:bool indisvalid:bool indisready:bool indislive:bool indkey:int2vector indcheckxmin:bool indisreplident:bool indnkeyatts:int2 indexprs:node indpred:node",
	"pg_trigger":     "oid:oid tgrelid:oid tgname:name tgfoid:oid tgtype:int2 tgenabled:char tgisinternal:bool tgconstrrelid:oid tgconstrindid:oid tgconstraint:oid tgdeferrable:bool tginitdeferred:bool tgnargs:int2 tgattr:int2vector tgqual:node tgparentid:oid",
	"pg_sequence":    "seqrelid:oid seqtypid:oid seqstart:int8 seqincrement:int8 seqmax:int8 seqmin:int8 seqcache:int8 seqcycle:bool",
	"pg_depend":      "classid:oid objid:oid objsubid:int4 refclassid:oid refobjid:oid refobjsubid:int4 deptype:char",
	"pg_description": "objoid:oid classoid:oid objsubid:int4 description:text",
	"pg_roles":       "oid:oid rolname:name",
	"pg_authid":      "oid:oid rolname:name",
	"pg_user":        "usesysid:oid usename:name",
	"pg_type":        "oid:oid typname:name typnamespace:oid typowner:oid typlen:int2 typtype:char typisdefined:bool typrelid:oid",
	"pg_inherits":    "inhrelid:oid inhparent:oid inhseqno:int4",
	"pg_tables":      "schemaname:name tablename:name tableowner:name tablespace:name hasindexes:bool hasrules:bool hastriggers:bool rowsecurity:bool",
	"pg_views":       "schemaname:name viewname:name viewowner:name definition:text",
	"pg_indexes":     "schemaname:name tablename:name indexname:name tablespace:name indexdef:text",

	"information_schema.schemata": "catalog_name:name schema_name:name schema_owner:name",
	"information_schema.tables":   "table_catalog:name table_schema:name table_name:name table_type:varchar",
	"information_schema.views":    "table_catalog:name table_schema:name table_name:name view_definition:varchar",
}

// columns and relations servers have that are not modelled
var otherCols = map[string]string{
	"pg_namespace":  "nspacl tableoid xmin ctid",
	"pg_class":      "relfrozenxid relminmxid relacl relpartbound relhasoids relhaspkey relrewrite tableoid xmin ctid",
	"pg_attribute":  "attstattarget attcacheoff attacl attoptions attfdwoptions attmissingval attgenerated attcompression tableoid",
	"pg_attrdef":    "tableoid",
	"pg_proc":       "procost prorows prosupport protransform proargtypes proallargtypes proargmodes proargnames proargdefaults protrftypes probin prosqlbody proconfig proacl tableoid",
	"pg_language":   "lanplcallfoid laninline lanvalidator lanacl",
	"pg_constraint": "conpfeqop conppeqop conffeqop conexclop tableoid",
	"pg_index":      "indcollation indclass indoption",
	"pg_trigger":    "tgargs tgoldtable tgnewtable tableoid",
	"pg_roles":      "rolsuper rolinherit rolcreaterole rolcreatedb rolcanlogin rolreplication rolconnlimit rolpassword rolvaliduntil rolbypassrls rolconfig",
	"pg_authid":     "rolsuper rolinherit rolcreaterole rolcreatedb rolcanlogin rolreplication rolconnlimit rolpassword rolvaliduntil rolbypassrls",
	"pg_type":       "typbyval typcategory typispreferred typdelim typsubscript typelem typarray typinput typoutput typreceive typsend typmodin typmodout typanalyze typalign typstorage typnotnull typbasetype typtypmod typndims typcollation typdefaultbin typdefault typacl tableoid",
	"pg_inherits":   "inhdetachpending tableoid",
	"pg_user":       "usecreatedb usesuper userepl usebypassrls passwd valuntil useconfig",
}
var otherRels = strings.Fields("pg_operator pg_opclass pg_am pg_aggregate pg_sequences pg_matviews pg_settings pg_database pg_rewrite pg_enum pg_extension pg_cast pg_collation pg_tablespace pg_shdescription pg_stat_user_tables pg_stat_all_tables pg_policy pg_partitioned_table pg_foreign_table pg_foreign_server pg_rules pg_user_mapping pg_shdepend pg_auth_members pg_group pg_shadow pg_statistic pg_stats pg_event_trigger pg_default_acl pg_init_privs pg_locks pg_stat_activity pg_timezone_names")

var typeNames = map[string]uint32{"oid": minisql.Oid, "name": minisql.Name, "text": minisql.Text, "bool": minisql.Bool, "char": minisql.Char, "int2": minisql.Int2,
	"int4": minisql.Int4, "int8": minisql.Int8, "_text": minisql.TextArray, "varchar": minisql.Varchar, "_int2": minisql.Int2Array, "int2vector": minisql.Int2Vector, "node": minisql.NodeTree}

func (w *world) add(table string, vals map[string]V) {
	t := w.tables[table]
	row := make([]V, len(t.Cols))
	used := 0
	for i, c := range t.Cols {
		v, ok := vals[c.Name]
		if ok {
			used++
		} else {
			switch c.OID {
			case minisql.Bool:
				v = false
			case minisql.Oid, minisql.Int2, minisql.Int4, minisql.Int8:
				v = int64(0)
			case minisql.Char, minisql.Name:
				v = ""
			}
		}
		switch x := v.(type) {
		case int:
			v = int64(x)
		case S:
			v = string(x)
		case []S:
			var l []V
			for _, s := range x {
				l = append(l, string(s))
			}
			v = l
		case []int:
			var l []V
			for _, n := range x {
				l = append(l, int64(n))
			}
			v = l
		}
		row[i] = v
	}
	for k := range vals {
		found := false
		for _, c := range t.Cols {
			found = found || c.Name == k
		}
		if !found && !(k == "adsrc" || k == "consrc" || k == "proisagg" || newOnly[table+"."+k]) {
			Harnessf("no column %s.%s", table, k)
		}
	}
	t.Rows = append(t.Rows, row)
}

func (w *world) comment(oid, class, sub int64, s *S) {
	if s == nil {
		return
	}
	w.descr[[3]int64{oid, class, sub}] = string(*s)
	w.add("pg_description", map[string]V{"objoid": oid, "classoid": class, "objsubid": sub, "description": *s})
}

func build(c *Cat) *world {
	w := &world{c: c, tables: map[string]*minisql.Table{}, byOid: map[int64]*entry{}, nsName: map[int64]string{}, roles: map[int64]string{},
		descr: map[[3]int64]string{}, cons: map[int64]func(bool) string{}, trigs: map[int64]func(bool) string{}, procs: map[int64]procInfo{}, typeText: map[[2]int64]string{}}
	for name, spec := range cols {
		if name == "pg_sequence" && c.Old {
			continue
		}
		t := &minisql.Table{}
		for _, f := range strings.Fields(spec) {
			p := strings.SplitN(f, ":", 2)
			switch {
			case (p[0] == "adsrc" || p[0] == "consrc" || p[0] == "proisagg" || p[0] == "proiswindow") && !c.Old, newOnly[name+"."+p[0]] && c.Old:
				continue
			}
			t.Cols = append(t.Cols, minisql.Column{Name: p[0], OID: typeNames[p[1]]})
		}
		w.tables[name] = t
	}
	for _, t := range types {
		w.typeText[[2]int64{t.oid, t.mod}] = t.text
		w.typeText[[2]int64{t.oid, -1}] = t.base
	}
	w.typeText[[2]int64{21, -1}] = "smallint"
	w.typeText[[2]int64{19, -1}] = "name"

	for i, r := range c.Roles {
		oid := int64(10 + i*7)
		w.roles[oid] = string(r)
		w.add("pg_roles", map[string]V{"oid": oid, "rolname": r})
		w.add("pg_authid", map[string]V{"oid": oid, "rolname": r})
		w.add("pg_user", map[string]V{"usesysid": oid, "usename": r})
	}
	role := func(i int) int64 { return int64(10 + i*7) }
	langOid := func(i int) int64 { return []int64{13500, 14, 13, 12}[i] }
	for i, l := range langs {
		w.add("pg_language", map[string]V{"oid": langOid(i), "lanname": l, "lanowner": 10})
	}

	next := [5]int64{}
	for i := range next {
		next[i] = 16384 + int64(c.Bases[i])
	}
	newOid := func(k int) int64 { next[k]++; return next[k] - 1 }

	ns := func(oid int64, name string, owner int64) int64 {
		w.nsName[oid] = name
		w.add("pg_namespace", map[string]V{"oid": oid, "nspname": name, "nspowner": owner})
		return oid
	}
	sys := ns(11, "pg_catalog", 10)
	info := ns(13000, "information_schema", 10)
	toast := ns(99, "pg_toast", 10)
	temp := int64(-1)
	if c.Noise&noiseTemp != 0 {
		temp = ns(newOid(1), "pg_temp_3", 10)
		ns(newOid(1), "pg_toast_temp_3", 10)
	}
	var nsOid []int64
	for _, s := range c.Schemas {
		o := ns(newOid(1), string(s.Name), role(s.Owner))
		nsOid = append(nsOid, o)
		w.comment(o, classNamespace, 0, s.Comment)
	}
	w.path = []int64{sys}
	for _, p := range c.Path {
		w.path = append(w.path, nsOid[p])
	}
	if c.Noise&noiseInfo != 0 {
		w.path = append(w.path, info)
	}

	class := func(e *entry, vals map[string]V) {
		w.entries = append(w.entries, e)
		w.byOid[e.oid] = e
		m := map[string]V{"oid": e.oid, "relname": e.name, "relnamespace": e.ns, "relkind": e.kind, "relowner": 10, "relpersistence": "p"}
		for k, v := range vals {
			m[k] = v
		}
		w.add("pg_class", m)
	}
	att := func(rel int64, num int, name string, typ, mod int64, vals map[string]V) {
		m := map[string]V{"attrelid": rel, "attnum": num, "attname": name, "atttypid": typ, "atttypmod": mod, "attislocal": true}
		for k, v := range vals {
			m[k] = v
		}
		w.add("pg_attribute", m)
	}
	proc := func(oid, n int64, name, args, returns string, lang int64, owner int64, src string) {
		p := procInfo{oid, n, name, args, returns}
		w.procs[oid] = p
		w.procList = append(w.procList, p)
		nargs := 0
		if args != "" {
			nargs = strings.Count(args, ",") + 1
		}
		w.add("pg_proc", map[string]V{"oid": oid, "proname": name, "pronamespace": n, "proowner": owner, "prolang": lang, "prosrc": src, "prokind": "f", "pronargs": nargs,
			"prorettype": retTypes[returns], "proretset": strings.HasPrefix(returns, "SETOF ") || strings.HasPrefix(returns, "TABLE(")})
	}

	// the catalogs themselves
	for i, name := range []string{"pg_class", "pg_proc", "pg_attribute", "pg_type"} {
		oid := []int64{classClass, classProc, 1249, classType}[i]
		class(&entry{oid: oid, ns: sys, name: name, kind: "r", rel: -1}, nil)
		if c.Noise&noiseSystem != 0 {
			att(oid, 1, "oid", 20, -1, map[string]V{"attnotnull": true})
		}
	}
	for i, name := range []string{"pg_namespace", "pg_constraint", "pg_trigger", "pg_attrdef"} {
		class(&entry{oid: []int64{classNamespace, classConstraint, classTrigger, classAttrdef}[i], ns: sys, name: name, kind: "r", rel: -1}, nil)
	}
	if !c.Old {
		class(&entry{oid: 2224, ns: sys, name: "pg_sequence", kind: "r", rel: -1}, nil)
	}
	if c.Noise&noiseSystem != 0 {
		class(&entry{oid: 11500, ns: sys, name: "pg_views", kind: "v", rel: -1}, nil)
		proc(870, sys, "lower", "text", "text", 12, 10, "lower")
		proc(1299, sys, "now", "", "timestamp with time zone", 12, 10, "now")
	}
	if c.Noise&noiseInfo != 0 {
		class(&entry{oid: 13010, ns: info, name: "sql_features", kind: "r", rel: -1}, nil)
		att(13010, 1, "feature_id", 25, -1, nil)
		class(&entry{oid: 13020, ns: info, name: "columns", kind: "v", rel: -1}, nil)
		proc(13030, info, "_pg_keysequal", "smallint[], smallint[]", "boolean", 14, 10, "select true")
		class(&entry{oid: 13040, ns: info, name: "info_seq", kind: "S", rel: -1}, nil)
		if !c.Old {
			w.add("pg_sequence", map[string]V{"seqrelid": 13040, "seqtypid": 20})
		}
		w.add("pg_depend", map[string]V{"classid": classClass, "objid": 13040, "refclassid": classClass, "refobjid": 13010, "refobjsubid": 1, "deptype": "a"})
	}

	for i, f := range c.Funcs {
		o := newOid(2)
		proc(o, nsOid[f.Schema], string(f.Name), string(f.Args), string(f.Returns), langOid(f.Lang), role(f.Owner), string(f.Body))
		w.comment(o, classProc, 0, f.Comment)
		_ = i
	}

	// object ids first: relations refer to each other
	w.relOid = make([]int64, len(c.Rels))
	for i := range c.Rels {
		w.relOid[i] = newOid(0)
	}
	for i := range c.Rels {
		r := &c.Rels[i]
		oid, n := w.relOid[i], nsOid[r.Schema]
		vals := map[string]V{"relowner": role(r.Owner), "relchecks": len(r.Checks), "relhasindex": len(r.Idx) > 0, "relhastriggers": len(r.Trigs) > 0 || len(r.FKs) > 0}
		if r.Options != nil {
			vals["reloptions"] = r.Options
		}
		if c.Noise&noiseToast != 0 && r.Kind == "r" {
			tt := newOid(0)
			vals["reltoastrelid"] = tt
			class(&entry{oid: tt, ns: toast, name: fmt.Sprintf("pg_toast_%d", oid), kind: "t", rel: -1}, map[string]V{"relowner": role(r.Owner), "reloptions": []S{"autovacuum_enabled=false"}})
			att(tt, 1, "chunk_id", 26, -1, nil)
		}
		class(&entry{oid: oid, ns: n, name: string(r.Name), kind: r.Kind, rel: i}, vals)
		w.comment(oid, classClass, 0, r.Comment)
		w.add("pg_depend", map[string]V{"classid": classClass, "objid": oid, "refclassid": classNamespace, "refobjid": n, "deptype": "n"})

		if r.Kind == "S" {
			for k, name := range []string{"last_value", "log_cnt", "is_called"} {
				att(oid, k+1, name, 20, -1, map[string]V{"attnotnull": true})
			}
			if !c.Old {
				w.add("pg_sequence", map[string]V{"seqrelid": oid, "seqtypid": seqTypes[r.Seq.Type].oid, "seqstart": r.Seq.Start, "seqincrement": r.Seq.Inc,
					"seqmax": r.Seq.Max, "seqmin": r.Seq.Min, "seqcache": r.Seq.Cache, "seqcycle": r.Seq.Cycle})
			}
			if o := r.Seq.OwnerRel; o >= 0 {
				dep := "a"
				if r.Seq.Identity && !c.Old {
					dep = "i"
				}
				w.add("pg_depend", map[string]V{"classid": classClass, "objid": oid, "refclassid": classClass, "refobjid": w.relOid[o], "refobjsubid": attnum(&c.Rels[o], r.Seq.OwnerCol), "deptype": dep})
			}
			continue
		}
		if c.Noise&noiseDropped != 0 {
			for k, name := range []string{"ctid", "xmin", "tableoid"} {
				att(oid, []int{-1, -3, -7}[k], name, 26, -1, map[string]V{"attnotnull": true})
			}
		}
		num := 0
		for k := range r.Cols {
			col := &r.Cols[k]
			num++
			if col.Gap {
				att(oid, num, fmt.Sprintf("........pg.dropped.%d........", num), 0, -1, map[string]V{"attisdropped": true})
				num++
			}
			typ := types[col.Type]
			v := map[string]V{"attnotnull": col.NotNull, "atthasdef": col.Default != nil}
			att(oid, num, string(col.Name), typ.oid, typ.mod, v)
			w.comment(oid, classClass, int64(num), col.Comment)
			if col.Default != nil {
				d := int64(50000) + oid*10 + int64(num)
				if c.Noise&noiseDeps != 0 {
					d = newOid(4) // may be the id of a sequence
				}
				w.add("pg_attrdef", map[string]V{"oid": d, "adrelid": oid, "adnum": num, "adbin": "node:" + string(*col.Default), "adsrc": *col.Default})
				w.add("pg_depend", map[string]V{"classid": classAttrdef, "objid": d, "refclassid": classClass, "refobjid": oid, "refobjsubid": num, "deptype": "a"})
			}
		}
		for k := range r.Checks {
			k := &r.Checks[k]
			o := newOid(3)
			w.add("pg_constraint", map[string]V{"oid": o, "conname": k.Name, "connamespace": n, "contype": "c", "conrelid": oid, "condeferrable": k.Defer > 0, "condeferred": k.Defer == 2,
				"convalidated": true, "conislocal": true, "conbin": "node:(" + string(k.Expr) + ")", "consrc": "(" + string(k.Expr) + ")", "conkey": []int{1}})
			w.cons[o] = func(pretty bool) string { return c.checkDef(k, pretty) }
		}
		for k := range r.FKs {
			f := &r.FKs[k]
			o := newOid(3)
			var ck, rk []int
			for _, x := range f.Cols {
				ck = append(ck, attnum(r, x))
			}
			for _, x := range f.Refs {
				rk = append(rk, attnum(&c.Rels[f.To], x))
			}
			w.add("pg_constraint", map[string]V{"oid": o, "conname": f.Name, "connamespace": n, "contype": "f", "conrelid": oid, "confrelid": w.relOid[f.To], "conkey": ck, "confkey": rk,
				"condeferrable": f.Defer > 0, "condeferred": f.Defer == 2, "convalidated": true, "conislocal": true,
				"confupdtype": actions[f.OnUpdate], "confdeltype": actions[f.OnDelete], "confmatchtype": map[bool]string{false: "s", true: "f"}[f.Match]})
			w.cons[o] = func(bool) string { return c.fkDef(r, f) }
			if c.Noise&noiseInternal != 0 {
				for _, side := range []string{"c", "a"} {
					at := oid
					if side == "a" {
						at = w.relOid[f.To]
					}
					to := newOid(4)
					name := fmt.Sprintf("RI_ConstraintTrigger_%s_%d", side, to)
					w.add("pg_trigger", map[string]V{"oid": to, "tgrelid": at, "tgname": name, "tgisinternal": true, "tgconstraint": o, "tgenabled": "O"})
					w.trigs[to] = func(bool) string {
						return "CREATE CONSTRAINT TRIGGER \"" + name + "\" AFTER INSERT ON " + c.relName(i, false) + " FROM x NOT DEFERRABLE INITIALLY IMMEDIATE FOR EACH ROW EXECUTE FUNCTION \"RI_FKey_check_ins\"()"
					}
				}
			}
		}
		for k := range r.Idx {
			x := &r.Idx[k]
			o := newOid(0)
			vals := map[string]V{"relowner": role(r.Owner)}
			class(&entry{oid: o, ns: n, name: string(x.Name), kind: "i", rel: -1, idx: x}, vals)
			w.comment(o, classClass, 0, x.Comment)
			var key []int
			for _, y := range x.Keys {
				a := attnum(r, y.Col)
				if y.Expr {
					a = 0
				}
				key = append(key, a)
				att(o, len(key), string(r.Cols[y.Col].Name), types[r.Cols[y.Col].Type].oid, -1, nil)
				if !x.Primary && c.Noise&noiseDeps != 0 {
					w.add("pg_depend", map[string]V{"classid": classClass, "objid": o, "refclassid": classClass, "refobjid": oid, "refobjsubid": attnum(r, y.Col), "deptype": "a"})
				}
			}
			var exprs, pred V
			for _, y := range x.Keys {
				if y.Expr {
					exprs = "node:lower(" + string(r.Cols[y.Col].Name) + ")"
				}
			}
			if x.Where != "" {
				pred = "node:(" + string(x.Where) + ")"
			}
			w.add("pg_index", map[string]V{"indnkeyatts": len(key), "indexprs": exprs, "indpred": pred, "indexrelid": o, "indrelid": oid, "indnatts": len(key), "indisunique": x.Unique, "indisprimary": x.Primary, "indimmediate": true, "indisvalid": true, "indisready": true, "indislive": true, "indkey": key})
			if x.Primary {
				co := newOid(3)
				w.add("pg_constraint", map[string]V{"oid": co, "conname": x.Name, "connamespace": n, "contype": "p", "conrelid": oid, "conindid": o, "convalidated": true, "conislocal": true, "conkey": key})
				w.cons[co] = func(bool) string { return "PRIMARY KEY (" + string(r.Cols[x.Keys[0].Col].Name) + ")" }
			}
		}
		for k := range r.Idx {
			// some unique indexes are those of constraints
			x := &r.Idx[k]
			plain := x.Unique && !x.Primary && x.Where == "" && c.Attrs>>uint(k%8)&1 == 1
			var key []int
			for _, y := range x.Keys {
				plain = plain && !y.Expr
				key = append(key, int(attnum(r, y.Col)))
			}
			for _, row := range w.tables["pg_constraint"].Rows {
				plain = plain && !(row[1] == string(x.Name))
			}
			for _, g := range r.Trigs {
				plain = plain && g.Name != x.Name
			}
			if plain {
				for _, row := range w.tables["pg_index"].Rows {
					if e := w.byOid[row[0].(int64)]; e != nil && e.idx == x {
						co := newOid(3)
						w.add("pg_constraint", map[string]V{"oid": co, "conname": x.Name, "connamespace": n, "contype": "u", "conrelid": oid, "conindid": row[0], "convalidated": true, "conislocal": true, "conkey": key})
						w.cons[co] = func(bool) string { return "UNIQUE (" + string(r.Cols[x.Keys[0].Col].Name) + ")" }
					}
				}
			}
		}
		for k := range r.Trigs {
			g := &r.Trigs[k]
			o := newOid(4)
			co := int64(0)
			if g.Constraint {
				co = newOid(3)
			}
			updated := []int{}
			for _, x := range g.Cols {
				updated = append(updated, attnum(r, x))
			}
			w.add("pg_trigger", map[string]V{"oid": o, "tgrelid": oid, "tgname": g.Name, "tgisinternal": g.Cloned, "tgenabled": "O", "tgdeferrable": g.Constraint, "tginitdeferred": g.Deferred, "tgtype": tgtype(g), "tgconstraint": co, "tgattr": updated})
			w.trigs[o] = func(pretty bool) string { return c.trigDef(i, g, pretty) }
			if g.Constraint {
				w.add("pg_constraint", map[string]V{"oid": co, "conname": g.Name, "connamespace": n, "contype": "t", "conrelid": oid, "convalidated": true, "conislocal": true})
				w.cons[co] = func(bool) string { return "TRIGGER DEFERRABLE INITIALLY DEFERRED" }
			}
		}
	}
	if temp >= 0 {
		o := newOid(0)
		name := "tmp"
		for i := range c.Rels {
			if c.Rels[i].Kind == "r" {
				name = string(c.Rels[i].Name)
			}
		}
		class(&entry{oid: o, ns: temp, name: name, kind: "r", rel: -1}, map[string]V{"relpersistence": "t"})
		att(o, 1, "temporary", 23, -1, nil)
		s := newOid(0)
		class(&entry{oid: s, ns: temp, name: "tmp_seq", kind: "S", rel: -1}, map[string]V{"relpersistence": "t"})
		if !c.Old {
			w.add("pg_sequence", map[string]V{"seqrelid": s, "seqtypid": 20, "seqstart": 1, "seqmin": 1, "seqmax": 9, "seqincrement": 1, "seqcache": 1})
		}
		w.add("pg_depend", map[string]V{"classid": classClass, "objid": s, "refclassid": classClass, "refobjid": o, "refobjsubid": 1, "deptype": "a"})
	}
	if c.Noise&noiseInternal != 0 && len(nsOid) > 0 {
		// a check constraint of a domain
		o := newOid(3)
		w.add("pg_constraint", map[string]V{"oid": o, "conname": "domain_check", "connamespace": nsOid[0], "contype": "c", "contypid": 90001, "convalidated": true})
		w.cons[o] = func(bool) string { return "CHECK (VALUE > 0)" }
	}
	if c.Noise&noiseComments != 0 {
		// comments on objects of other kinds that have the same ids
		other := S("comment of something else")
		var ids []int64
		for o := range w.byOid {
			ids = append(ids, o)
		}
		for o := range w.procs {
			ids = append(ids, o)
		}
		for o := range w.nsName {
			ids = append(ids, o)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		for i, o := range ids {
			if i > 0 && ids[i-1] == o {
				continue
			}
			for _, cl := range []int64{classType, classConstraint, classTrigger} {
				w.comment(o, cl, 0, &other)
			}
			if w.byOid[o] == nil {
				w.comment(o, classClass, 0, &other)
			}
			if _, ok := w.procs[o]; !ok {
				w.comment(o, classProc, 0, &other)
			}
			if _, ok := w.nsName[o]; !ok {
				w.comment(o, classNamespace, 0, &other)
			}
		}
	}
	w.vary()
	w.views()
	// rows are stored in no particular order
	if c.Shuffle > 0 {
		for _, t := range w.tables {
			for i, x := len(t.Rows)-1, uint64(c.Shuffle); i > 0; i-- {
				x = x*6364136223846793005 + 1442695040888963407
				j := int(x>>33) % (i + 1)
				t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i]
			}
		}
	}
	w.db = w.functions()
	return w
}

// typeNamesOf are the names of types in pg_type.
var typeNamesOf = map[int64]string{16: "bool", 18: "char", 19: "name", 20: "int8", 21: "int2", 23: "int4", 25: "text", 26: "oid", 1009: "_text", 1042: "bpchar", 1043: "varchar", 1184: "timestamptz", 1700: "numeric", 2249: "record", 2278: "void", 2279: "trigger", 90001: "My Type"}

// views fills what follows from other tables.
func (w *world) views() {
	var ids []int64
	for o := range typeNamesOf {
		ids = append(ids, o)
	}
	for _, o := range retTypes {
		if typeNamesOf[int64(o)] == "" {
			Harnessf("type %d has no name", o)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, o := range ids {
		ns := int64(11)
		if o == 90001 {
			ns = 90009
		}
		w.add("pg_type", map[string]V{"oid": o, "typname": typeNamesOf[o], "typnamespace": ns, "typowner": 10, "typtype": "b", "typisdefined": true})
	}
	get := func(t *minisql.Table, row []V, name string) V {
		for i, c := range t.Cols {
			if c.Name == name {
				return row[i]
			}
		}
		Harnessf("no column %s", name)
		return nil
	}
	var tables []int64
	for i := range w.c.Rels {
		if w.c.Rels[i].Kind == "r" {
			tables = append(tables, w.relOid[i])
		}
	}
	pc := w.tables["pg_class"]
	for n, row := range pc.Rows {
		oid, ns := get(pc, row, "oid").(int64), get(pc, row, "relnamespace").(int64)
		nsName, owner := w.nsName[ns], w.roles[get(pc, row, "relowner").(int64)]
		name, kind := get(pc, row, "relname").(string), get(pc, row, "relkind").(string)
		part := !w.c.Old && get(pc, row, "relispartition") == true
		if strings.Contains("rp", kind) && len(tables) > 1 && (part || w.c.Attrs>>uint(n%8)&1 == 1) {
			parent := tables[n%len(tables)]
			if parent == oid {
				parent = tables[(n+1)%len(tables)]
			}
			w.add("pg_inherits", map[string]V{"inhrelid": oid, "inhparent": parent, "inhseqno": 1})
		}
		typ := map[string]string{"r": "BASE TABLE", "p": "BASE TABLE", "v": "VIEW", "f": "FOREIGN"}[kind]
		if typ != "" && w.mine(oid, ns, get(pc, row, "relowner").(int64)) {
			w.add("information_schema.tables", map[string]V{"table_catalog": "db", "table_schema": nsName, "table_name": name, "table_type": typ})
			if kind == "v" {
				w.add("information_schema.views", map[string]V{"table_catalog": "db", "table_schema": nsName, "table_name": name, "view_definition": "SELECT 1"})
			}
		}
		switch kind {
		case "r", "p":
			w.add("pg_tables", map[string]V{"schemaname": nsName, "tablename": name, "tableowner": owner, "hasindexes": get(pc, row, "relhasindex"),
				"hasrules": get(pc, row, "relhasrules"), "hastriggers": get(pc, row, "relhastriggers"), "rowsecurity": get(pc, row, "relrowsecurity")})
		case "v":
			w.add("pg_views", map[string]V{"schemaname": nsName, "viewname": name, "viewowner": owner, "definition": " SELECT 1;"})
		}
	}
	for i := range w.c.Rels {
		r := &w.c.Rels[i]
		for k := range r.Idx {
			w.add("pg_indexes", map[string]V{"schemaname": w.c.Schemas[r.Schema].Name, "tablename": r.Name, "indexname": r.Idx[k].Name, "indexdef": w.c.idxDef(i, &r.Idx[k], false)})
		}
	}
	pn := w.tables["pg_namespace"]
	for _, row := range pn.Rows {
		if o := get(pn, row, "nspowner").(int64); w.mine(0, 0, o) {
			w.add("information_schema.schemata", map[string]V{"catalog_name": "db", "schema_name": get(pn, row, "nspname"), "schema_owner": w.roles[o]})
		}
	}
}

// mine tells whether the connected role, the first one, has privileges on
// something: it has them on what it owns and on what comes with the server.
func (w *world) mine(oid, ns, owner int64) bool {
	return owner == 10 || ns == 11 || ns == 13000
}

// privilege answers the has_..._privilege functions.
func (w *world) privilege(name string, what V) (bool, *minisql.Error) {
	find := func(table, key, val string, match func(row map[string]V) bool) (bool, *minisql.Error) {
		t := w.tables[table]
		for _, r := range t.Rows {
			m := map[string]V{}
			for i, c := range t.Cols {
				m[c.Name] = r[i]
			}
			if match(m) {
				ns, _ := m[val].(int64)
				return w.mine(m["oid"].(int64), ns, m[key].(int64)), nil
			}
		}
		return false, &minisql.Error{Code: "42704", Msg: fmt.Sprintf("%v does not exist", what)}
	}
	if s, ok := what.(string); ok && name != "has_schema_privilege" {
		o, known := w.db.Regclass(s)
		if !known || name == "has_function_privilege" {
			panic(&minisql.Unsupported{Msg: name + " by name"})
		}
		what = o
	}
	switch name {
	case "has_schema_privilege":
		return find("pg_namespace", "nspowner", "oid", func(m map[string]V) bool { return m["oid"] == what || m["nspname"] == what })
	case "has_function_privilege":
		return find("pg_proc", "proowner", "pronamespace", func(m map[string]V) bool { return m["oid"] == what })
	}
	return find("pg_class", "relowner", "relnamespace", func(m map[string]V) bool { return m["oid"] == what })
}

func (w *world) relVisible(e *entry) bool {
	for _, n := range w.path {
		for _, x := range w.entries {
			if x.ns == n && x.name == e.name {
				return x == e
			}
		}
	}
	return false
}

func (w *world) procVisible(p procInfo) bool {
	for _, n := range w.path {
		for _, x := range w.procList {
			if x.ns == n && x.name == p.name && x.args == p.args {
				return x.oid == p.oid
			}
		}
	}
	return false
}

// lookup finds a relation by name.
func (w *world) lookup(schema, name string) *entry {
	for _, n := range w.path {
		for _, x := range w.entries {
			if schema == "" && x.ns == n && x.name == name {
				return x
			}
		}
	}
	for _, x := range w.entries {
		if schema != "" && w.nsName[x.ns] == schema && x.name == name {
			return x
		}
	}
	return nil
}

var fnTypes = map[string]struct {
	lo, hi int
	oid    uint32
}{
	"pg_get_userbyid": {1, 1, minisql.Name}, "obj_description": {1, 2, minisql.Text}, "col_description": {2, 2, minisql.Text}, "shobj_description": {2, 2, minisql.Text},
	"format_type": {2, 2, minisql.Text}, "pg_get_expr": {2, 3, minisql.Text}, "pg_get_function_result": {1, 1, minisql.Text}, "pg_get_function_arguments": {1, 1, minisql.Text},
	"pg_get_function_identity_arguments": {1, 1, minisql.Text}, "pg_get_indexdef": {1, 3, minisql.Text}, "pg_get_triggerdef": {1, 2, minisql.Text}, "pg_get_constraintdef": {1, 2, minisql.Text},
	"pg_table_is_visible": {1, 1, minisql.Bool}, "pg_function_is_visible": {1, 1, minisql.Bool}, "version": {0, 0, minisql.Text}, "current_setting": {1, 2, minisql.Text},
	"current_database": {0, 0, minisql.Name}, "current_catalog": {0, 0, minisql.Name}, "current_schema": {0, 0, minisql.Name}, "current_user": {0, 0, minisql.Name}, "session_user": {0, 0, minisql.Name}, "user": {0, 0, minisql.Name},
	"has_table_privilege": {2, 3, minisql.Bool}, "has_sequence_privilege": {2, 3, minisql.Bool}, "has_any_column_privilege": {2, 3, minisql.Bool}, "has_schema_privilege": {2, 3, minisql.Bool}, "has_function_privilege": {2, 3, minisql.Bool}, "pg_has_role": {2, 3, minisql.Bool},
	"current_schemas": {1, 1, minisql.NameArray}, "to_regclass": {1, 1, minisql.Regclass}, "pg_my_temp_schema": {0, 0, minisql.Oid}, "pg_is_other_temp_schema": {1, 1, minisql.Bool},
}

const versionText = "PostgreSQL 11.5 (fake) on x86_64"

// versions are those that a server may have, with and without pg_sequence.
var versions = map[bool][]struct {
	text string
	num  int
}{
	true:  {{"9.6.24", 90624}, {"9.6.2 (Debian 9.6.2-1)", 90602}, {"9.5.3", 90503}, {"9.4.26", 90426}, {"9.6rc1", 90600}},
	false: {{"11.5", 110005}, {"11.22 (Debian 11.22-0+deb10u2)", 110022}, {"12.17", 120017}, {"13.2", 130002}, {"14.9", 140009}, {"15.4", 150004}, {"16.1 (Ubuntu 16.1-1.pgdg22.04+1)", 160001}, {"17.2", 170002}, {"18beta1", 180000}, {"100.1", 1000001}},
}

func (c *Cat) version() (string, int) {
	l := versions[c.Old]
	v := l[c.Ver%len(l)]
	return v.text, v.num
}

func (c *Cat) versionText() string {
	text, _ := c.version()
	return "PostgreSQL " + text + " on x86_64-pc-linux-gnu, compiled by gcc, 64-bit"
}

func (w *world) show(name string) (string, bool) {
	switch strings.ToLower(name) {
	case "search_path":
		return string(w.c.SearchPath), true
	case "timezone":
		return string(w.c.Timezone), true
	case "server_version_num":
		_, num := w.c.version()
		return strconv.Itoa(num), true
	case "server_version":
		text, _ := w.c.version()
		return text, true
	case "standard_conforming_strings":
		return "on", true
	}
	for _, n := range strings.Fields("datestyle client_encoding server_encoding lc_collate default_tablespace work_mem max_connections application_name log_timezone intervalstyle lc_messages is_superuser session_authorization statement_timeout role temp_schemas all") {
		if n == name {
			Harnessf("setting %s is not modelled", name)
		}
	}
	return "", false
}

func (w *world) functions() *minisql.DB {
	unsup := func(format string, args ...interface{}) {
		panic(&minisql.Unsupported{Msg: fmt.Sprintf(format, args...)})
	}
	db := &minisql.DB{Show: w.show}
	db.Table = func(schema, name string) (*minisql.Table, bool) {
		if schema == "information_schema" {
			t := w.tables[schema+"."+name]
			return t, t != nil
		}
		if schema == "" || schema == "pg_catalog" {
			if t := w.tables[name]; t != nil {
				return t, true
			}
			for _, n := range otherRels {
				if n == name {
					return nil, false
				}
			}
		}
		e := w.lookup(schema, name)
		if e == nil {
			return nil, true
		}
		if e.kind != "S" {
			// what a relation's rows are doesn't matter to anybody
			t := &minisql.Table{}
			if e.rel >= 0 {
				for _, col := range w.c.Rels[e.rel].Cols {
					t.Cols = append(t.Cols, minisql.Column{Name: string(col.Name), OID: minisql.Text})
				}
			}
			return t, true
		}
		s := &Seq{Start: 1, Min: 1, Max: 9, Inc: 1, Cache: 1}
		if e.rel >= 0 {
			s = w.c.Rels[e.rel].Seq
		}
		t := &minisql.Table{Cols: []minisql.Column{{Name: "last_value", OID: minisql.Int8}, {Name: "log_cnt", OID: minisql.Int8}, {Name: "is_called", OID: minisql.Bool}},
			Rows: [][]V{{s.Start, int64(0), false}}}
		if w.c.Old {
			for _, x := range []struct {
				n string
				o uint32
				v V
			}{{"sequence_name", minisql.Name, e.name}, {"start_value", minisql.Int8, s.Start}, {"increment_by", minisql.Int8, s.Inc}, {"max_value", minisql.Int8, s.Max},
				{"min_value", minisql.Int8, s.Min}, {"cache_value", minisql.Int8, s.Cache}, {"is_cycled", minisql.Bool, s.Cycle}} {
				t.Cols = append(t.Cols, minisql.Column{Name: x.n, OID: x.o})
				t.Rows[0] = append(t.Rows[0], x.v)
			}
		}
		return t, true
	}
	db.Column = func(table, column string) bool {
		for _, n := range strings.Fields(otherCols[table]) {
			if n == column {
				return true
			}
		}
		return false
	}
	db.FuncType = func(name string, oids []uint32) (uint32, bool) {
		f, ok := fnTypes[name]
		if !ok {
			return 0, false
		}
		if len(oids) < f.lo || len(oids) > f.hi {
			panic(&minisql.Error{Code: "42883", Msg: fmt.Sprintf("function %s with %d arguments does not exist", name, len(oids))})
		}
		for i, o := range oids {
			isInt := o == minisql.Oid || o == minisql.Int2 || o == minisql.Int4 || o == minisql.Regclass || o == minisql.Unknown
			switch {
			case i == 0 && name == "pg_get_expr":
				if o != minisql.NodeTree {
					panic(&minisql.Error{Code: "42883", Msg: "function pg_get_expr does not exist for these types"})
				}
			case i == 0 && f.oid != minisql.NameArray && !strings.Contains(name, "has_") && name != "to_regclass" && name != "current_setting" && !isInt:
				panic(&minisql.Error{Code: "42883", Msg: "function " + name + " does not exist for these types"})
			}
		}
		return f.oid, true
	}
	db.Func = func(name string, args []V, oids []uint32) (V, *minisql.Error) {
		arg := func(i int) int64 {
			n, ok := args[i].(int64)
			if !ok {
				unsup("argument %d of %s is %T", i, name, args[i])
			}
			return n
		}
		if name == "format_type" {
			if args[0] == nil {
				return nil, nil
			}
			mod := int64(-1)
			if args[1] != nil {
				mod = arg(1)
			}
			if arg(0) == 0 {
				return "-", nil
			}
			s, ok := w.typeText[[2]int64{arg(0), mod}]
			if !ok {
				if arg(0) == 26 {
					return "oid", nil
				}
				return "???", nil
			}
			return s, nil
		}
		for _, a := range args {
			if a == nil {
				return nil, nil
			}
		}
		text := func(s string, ok bool) (V, *minisql.Error) {
			if !ok {
				return nil, nil
			}
			return s, nil
		}
		pretty := func(i int) bool { return len(args) > i && args[i] == true }
		switch name {
		case "pg_get_userbyid":
			if s, ok := w.roles[arg(0)]; ok {
				return s, nil
			}
			return fmt.Sprintf("unknown (OID=%d)", arg(0)), nil
		case "obj_description":
			if len(args) == 1 {
				for _, cl := range []int64{classType, classProc, classClass, classConstraint, classNamespace, classTrigger} {
					if s, ok := w.descr[[3]int64{arg(0), cl, 0}]; ok {
						return s, nil
					}
				}
				return nil, nil
			}
			cl, ok := map[string]int64{"pg_class": classClass, "pg_proc": classProc, "pg_namespace": classNamespace, "pg_constraint": classConstraint, "pg_trigger": classTrigger, "pg_type": classType, "pg_attrdef": classAttrdef}[fmt.Sprint(args[1])]
			if !ok {
				return nil, nil
			}
			s, ok := w.descr[[3]int64{arg(0), cl, 0}]
			return text(s, ok)
		case "col_description":
			s, ok := w.descr[[3]int64{arg(0), classClass, arg(1)}]
			return text(s, ok)
		case "shobj_description":
			return nil, nil
		case "pg_get_expr":
			s := strings.TrimPrefix(fmt.Sprint(args[0]), "node:")
			return s, nil
		case "pg_get_function_result":
			p, ok := w.procs[arg(0)]
			return text(p.returns, ok)
		case "pg_get_function_arguments", "pg_get_function_identity_arguments":
			p, ok := w.procs[arg(0)]
			return text(p.args, ok)
		case "pg_get_indexdef":
			e := w.byOid[arg(0)]
			if e == nil || e.idx == nil {
				return nil, nil
			}
			if len(args) == 2 {
				unsup("pg_get_indexdef with two arguments")
			}
			if len(args) == 3 && arg(1) != 0 {
				unsup("pg_get_indexdef of a column")
			}
			for i := range w.c.Rels {
				for k := range w.c.Rels[i].Idx {
					if &w.c.Rels[i].Idx[k] == e.idx {
						return w.c.idxDef(i, e.idx, pretty(2)), nil
					}
				}
			}
			return nil, nil
		case "pg_get_triggerdef":
			if f := w.trigs[arg(0)]; f != nil {
				return f(pretty(1)), nil
			}
			return nil, &minisql.Error{Code: "XX000", Msg: "could not find tuple for trigger"}
		case "pg_get_constraintdef":
			if f := w.cons[arg(0)]; f != nil {
				return f(pretty(1)), nil
			}
			return nil, nil
		case "pg_table_is_visible":
			if e := w.byOid[arg(0)]; e != nil {
				return w.relVisible(e), nil
			}
			return nil, nil
		case "pg_function_is_visible":
			if p, ok := w.procs[arg(0)]; ok {
				return w.procVisible(p), nil
			}
			return nil, nil
		case "has_table_privilege", "has_sequence_privilege", "has_any_column_privilege", "has_schema_privilege", "has_function_privilege":
			return w.privilege(name, args[len(args)-2])
		case "pg_has_role":
			what := args[len(args)-2]
			return what == int64(10) || what == string(w.c.Roles[0]), nil
		case "version":
			return w.c.versionText(), nil
		case "current_setting":
			s, ok := w.show(fmt.Sprint(args[0]))
			if !ok && len(args) == 2 && args[1] == true {
				return nil, nil
			}
			if !ok {
				return nil, &minisql.Error{Code: "42704", Msg: "unrecognized configuration parameter"}
			}
			return s, nil
		case "current_database", "current_catalog":
			return "db", nil
		case "current_user", "session_user", "user":
			return string(w.c.Roles[0]), nil
		case "current_schema":
			if len(w.path) > 1 {
				return w.nsName[w.path[1]], nil
			}
			return nil, nil
		case "current_schemas":
			var out []V
			for i, n := range w.path {
				if i > 0 || args[0] == true {
					out = append(out, w.nsName[n])
				}
			}
			return out, nil
		case "to_regclass":
			if o, ok := db.Regclass(fmt.Sprint(args[0])); ok {
				return o, nil
			}
			return nil, nil
		case "pg_my_temp_schema":
			return int64(0), nil
		case "pg_is_other_temp_schema":
			return w.nsName[arg(0)] == "pg_temp_3", nil
		}
		unsup("function %s", name)
		return nil, nil
	}
	db.Regclass = func(name string) (int64, bool) {
		var parts []string
		for i := 0; i < len(name); {
			if name[i] == '"' {
				j := i + 1
				var b strings.Builder
				for j < len(name) {
					if name[j] == '"' {
						if j+1 < len(name) && name[j+1] == '"' {
							j++
						} else {
							break
						}
					}
					b.WriteByte(name[j])
					j++
				}
				parts = append(parts, b.String())
				i = j + 1
			} else {
				j := strings.IndexByte(name[i:], '.')
				if j < 0 {
					j = len(name) - i
				}
				parts = append(parts, strings.ToLower(name[i:i+j]))
				i += j
			}
			if i < len(name) && name[i] == '.' {
				i++
			}
		}
		schema := ""
		if len(parts) == 2 {
			schema = parts[0]
		} else if len(parts) != 1 {
			return 0, false
		}
		e := w.lookup(schema, parts[len(parts)-1])
		if e == nil {
			if schema == "pg_catalog" || schema == "information_schema" {
				for _, n := range otherRels {
					if n == parts[1] {
						unsup("relation %s", name)
					}
				}
			}
			return 0, false
		}
		return e.oid, true
	}
	db.RegclassOut = func(oid int64) string {
		e := w.byOid[oid]
		if e == nil {
			return fmt.Sprint(oid)
		}
		n := minisql.QuoteIdent(e.name)
		if !w.relVisible(e) {
			n = minisql.QuoteIdent(w.nsName[e.ns]) + "." + n
		}
		return n
	}
	return db
}

// ---------------------------------------------------------------- the server

// backend answers statements from a world.
type backend struct {
	w      *world
	mu     sync.Mutex
	stmts  map[string]*minisql.Stmt
	unsup  string
	served []served // statements executed, in order
	fault  *Fault
	server *fakepg.Server
	port   uint16
}

type served struct {
	sql    string
	params []*string
	rows   int
	cols   int
	defs   bool // a row has a definition that can be spoiled
}

// place chooses a statement of those that were served: the nth, around the end.
func (b *backend) place(n int, defs bool) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	var at []int
	for i, s := range b.served {
		if s.defs || !defs {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return n
	}
	return at[n%len(at)]
}

// Fault is something that goes wrong at a statement.
type Fault struct {
	At    int    // number of the statement, by execution
	Kind  string // prepare, prepare-break, execute, execute-break, row, row-break, row-partial, definition
	Row   int    // rows sent before it
	Code  string
	Fired bool   `json:"-"`
	Last  bool   `json:"-"` // every row had been sent
	Rows  int    `json:"-"`
	SQL   string `json:"-"`
}

func (b *backend) guard(f func() *fakepg.Err) (e *fakepg.Err) {
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			switch x := r.(type) {
			case *minisql.Unsupported:
				msg = x.Msg
			case *HarnessError:
				msg = x.Msg
			case *minisql.Error:
				e = &fakepg.Err{Code: x.Code, Message: x.Msg}
				return
			}
			b.mu.Lock()
			b.unsup = msg
			b.mu.Unlock()
			e = &fakepg.Err{Code: "0A000", Message: "the check's SQL engine does not support this: " + msg}
		}
	}()
	return f()
}

func (b *backend) prepare(sql string) (st *minisql.Stmt, fe *fakepg.Err) {
	fe = b.guard(func() *fakepg.Err {
		b.mu.Lock()
		st = b.stmts[sql]
		b.mu.Unlock()
		if st != nil {
			return nil
		}
		s, err := b.w.db.Prepare(sql)
		if err != nil {
			return &fakepg.Err{Code: err.Code, Message: err.Msg}
		}
		st = s
		b.mu.Lock()
		b.stmts[sql] = s
		b.mu.Unlock()
		return nil
	})
	return st, fe
}

func resultCols(st *minisql.Stmt) []fakepg.Col {
	var out []fakepg.Col
	for _, c := range st.Cols {
		out = append(out, fakepg.Col{Name: c.Name, OID: c.OID})
	}
	return out
}

func (b *backend) exec(sql string, params []*string) *fakepg.Result {
	st, fe := b.prepare(sql)
	if fe != nil {
		return &fakepg.Result{Err: fe}
	}
	var rows [][]*string
	fe = b.guard(func() *fakepg.Err {
		r, err := st.Exec(params)
		if err != nil {
			return &fakepg.Err{Code: err.Code, Message: err.Msg}
		}
		rows = r
		return nil
	})
	if fe != nil {
		return &fakepg.Result{Err: fe}
	}
	return &fakepg.Result{Cols: resultCols(st), Rows: rows}
}

func (b *backend) answer(q *fakepg.Query) *fakepg.Result {
	r := b.exec(q.SQL, q.Params)
	b.mu.Lock()
	defer b.mu.Unlock()
	n := len(b.served)
	b.served = append(b.served, served{sql: q.SQL, params: q.Params, rows: len(r.Rows), cols: len(r.Cols), defs: hasDefinition(r)})
	f := b.fault
	if f == nil || f.At != n || r.Err != nil {
		return r
	}
	m := *r
	e := &fakepg.Err{Code: f.Code, Message: "injected"}
	f.SQL, f.Rows = q.SQL, len(r.Rows)
	row := f.Row
	if row > len(r.Rows) {
		row = len(r.Rows)
	}
	switch f.Kind {
	case "execute":
		m.Err = e
	case "execute-break":
		m.Break = true
	case "row":
		m.ErrAtRow, m.AtRow = e, row
	case "row-break":
		m.BreakAtRow, m.AtRow = true, row
	case "row-partial":
		m.BreakAtRow, m.BreakInRow, m.AtRow = true, true, row
	case "definition":
		ok := false
		for i := 0; i < len(r.Rows) && !ok; i++ {
			ok = spoil(&m, (row+i)%len(r.Rows))
		}
		if !ok {
			return r
		}
	default:
		return r
	}
	f.Fired = true
	f.Last = strings.HasPrefix(f.Kind, "row") && row == len(r.Rows)
	return &m
}

var definition = regexp.MustCompile(`^(CREATE (UNIQUE )?INDEX|CREATE (CONSTRAINT )?TRIGGER|CHECK|FOREIGN KEY)\b`)
var option = regexp.MustCompile(`^(fillfactor|autovacuum_\w+|parallel_workers)=`)

func hasDefinition(r *fakepg.Result) bool {
	m := *r
	for i := range r.Rows {
		if spoil(&m, i) {
			return true
		}
	}
	return false
}

// spoil makes the definition in a row one that nothing can be made of.
func spoil(r *fakepg.Result, row int) bool {
	if row >= len(r.Rows) || len(r.Cols) > 3 {
		return false
	}
	rows := append([][]*string(nil), r.Rows...)
	vals := append([]*string(nil), rows[row]...)
	bad := ""
	for i, v := range vals {
		switch {
		case v == nil:
			continue
		case definition.MatchString(*v):
			bad = "?%& (" + *v
		case option.MatchString(*v):
			bad = "fillfactor=?%&"
		default:
			continue
		}
		vals[i] = &bad
	}
	rows[row] = vals
	r.Rows = rows
	return bad != ""
}

func (b *backend) prepareFault(q *fakepg.Query) *fakepg.Result {
	b.mu.Lock()
	defer b.mu.Unlock()
	f := b.fault
	if f == nil || f.At != len(b.served) || f.Fired {
		return nil
	}
	switch f.Kind {
	case "prepare":
		f.Fired = true
		f.SQL = q.SQL
		return &fakepg.Result{Err: &fakepg.Err{Code: f.Code, Message: "injected"}}
	case "prepare-break":
		f.Fired = true
		f.SQL = q.SQL
		return &fakepg.Result{Break: true}
	}
	return nil
}

// Sockets in the work directory are used instead of ports, of which there
// aren't enough for as many cases as there are.
var lastPort uint32

func socketDir() string {
	if d := os.Getenv("VERIF_WORK"); d != "" {
		return d
	}
	return os.TempDir()
}

func (b *backend) socket() string {
	b.port = uint16(atomic.AddUint32(&lastPort, 1)%60000 + 1)
	return fmt.Sprintf("%s/.s.PGSQL.%d", socketDir(), b.port)
}

func (b *backend) listen() {
	version := ""
	if b.w != nil {
		version, _ = b.w.c.version()
	}
	s, err := fakepg.Listen(&fakepg.Server{
		Describe: func(sql string) ([]uint32, []fakepg.Col, *fakepg.Err) {
			st, fe := b.prepare(sql)
			if fe != nil {
				return nil, nil, fe
			}
			return st.Params, resultCols(st), nil
		},
		Answer:       b.answer,
		PrepareFault: b.prepareFault,
		Version:      version,
	}, b.socket())
	if err != nil {
		Harnessf("%v", err)
	}
	b.server = s
}

func serve(c *Cat, f *Fault) *backend {
	b := &backend{w: build(c), stmts: map[string]*minisql.Stmt{}, fault: f}
	b.listen()
	return b
}

// settle ends the case as undecided if a statement could not be judged.
func (b *backend) settle() {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.unsup != "" {
		Harnessf("the SQL engine does not support a statement: %s\n%s", b.unsup, b.sqls())
	}
}

func (b *backend) sqls() string {
	var out []string
	for _, s := range b.served {
		out = append(out, s.sql)
	}
	return strings.Join(out, "\n--\n")
}
