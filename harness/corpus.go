package main

import "fmt"

// Hand written texts: constructs that were broken once, or that random
// generation reaches rarely.
type corpusEntry struct {
	d   Dialect
	sql string
}

var corpus = []corpusEntry{
	{PG, "CREATE TABLE t (a INTEGER NOT NULL CHECK (a > 0), b TEXT);"},
	{PG, "CREATE TABLE t (a INTEGER REFERENCES u (id), b TEXT);"},
	{PG, "CREATE TABLE t (a INTEGER, CONSTRAINT f FOREIGN KEY (a) REFERENCES u (id) ON DELETE CASCADE);"},
	{PG, "CREATE TABLE t (a TEXT DEFAULT 'it''s');"},
	{PG, "CREATE TABLE naïve (日本語 INTEGER);"},
	{PG, "CREATE INDEX i ON t USING gin (a);"},
	{CR, "CREATE TABLE t (a INT8, INDEX i (a ASC) USING HASH WITH (bucket_count = 8));"},
	{CR, "CREATE INDEX i ON t USING btree (a ASC);"},
	{CR, "CREATE TABLE t (a INT8, FOREIGN KEY (a) REFERENCES u (id ASC));"},
	{MY, "CREATE TABLE t (a INT, CONSTRAINT f FOREIGN KEY (a) REFERENCES u (id) ON DELETE CASCADE ON UPDATE NO ACTION);"},
	{MY, "CREATE TABLE t (a INT REFERENCES u (id) ON DELETE CASCADE ON UPDATE CASCADE);"},
	{MY, "CREATE TABLE t (a INT, CHECK (a > 0), CHECK (a < 10));"},
	{MY, "CREATE TABLE t (`a--b` INT CHECK (`a--b` > 0));"},
	{SP, "CREATE TABLE t (a INT64, CHECK (a > 0)) PRIMARY KEY (a);"},
	{SP, "CREATE TABLE t (a TIMESTAMP DEFAULT (CURRENT_TIMESTAMP()) OPTIONS (allow_commit_timestamp = true)) PRIMARY KEY (a);"},
	{SP, "CREATE TABLE t (a INT64 CHECK (a > 0) CHECK (a < 10)) PRIMARY KEY (a);"},
}

// runCorpusFaithful: the interpreter reads text and rendering alike (names of
// unnamed constraints aside).
func (c *Ctx) runCorpusFaithful() {
	for i, e := range corpus {
		key := fmt.Sprintf("corpus/%d", i)
		s0, err := interpSQL(e.sql, e.d)
		if err != nil {
			c.harnessBug("corpus: "+err.Error(), e.sql)
			continue
		}
		x, err := repoParse(e.d, e.sql)
		if err != nil {
			c.violate(key, "valid DDL rejected: "+err.Error(), e.sql)
			continue
		}
		out, err := repoString(x)
		if err != nil {
			c.violate(key, err.Error(), e.sql)
			continue
		}
		s1, err := interpSQL(out, e.d)
		if err != nil {
			c.violate(key, "the rendering is not valid DDL: "+err.Error(), e.sql+"\n--- rendered:\n"+out)
			continue
		}
		if df := matchState(s1, s0); df != "" {
			c.violate(key, "parsed schema differs: (first=parsed, second=source) "+df, e.sql+"\n--- rendered:\n"+out)
			continue
		}
		c.eval(e.d.String() + e.sql)
	}
}
