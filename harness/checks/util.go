// Package checks has the checks, one per property.
package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync/atomic"

	"github.com/GannettDigital/jstransform/jsonschema"
	"github.com/GannettDigital/jstransform/transform"

	"verif/harness/gen"
	"verif/harness/h"
)

var registry = map[string]*h.Check{}

func register(c *h.Check) { registry[c.ID] = c }

// All returns all checks by id.
func All() map[string]*h.Check { return registry }

var fileNo int64

// writeFile writes a new uniquely named file, the caches of the code under test are keyed on the path.
func writeFile(dir, name string, data []byte) string {
	d := filepath.Join(dir, fmt.Sprintf("f%d", atomic.AddInt64(&fileNo, 1)))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	p := filepath.Join(d, name)
	if err := os.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
	return p
}

// loadSchema writes the schema text and loads it.
func loadSchema(c *h.Case, text []byte) (*jsonschema.Schema, string, error) {
	p := writeFile(c.Dir, "schema.json", text)
	s, err := jsonschema.SchemaFromFile(p, "")
	return s, p, err
}

// transformer builds a transformer or fails the case.
func transformer(c *h.Case, n *gen.Node, ident string, xml bool) *transform.Transformer {
	text := gen.Render(n.JSON(), gen.Layout{})
	s, p, err := loadSchema(c, text)
	defer os.RemoveAll(filepath.Dir(p))
	if err != nil {
		c.Fail("valid schema does not load: "+err.Error(), map[string]interface{}{"schema": json.RawMessage(text)})
		return nil
	}
	var tr *transform.Transformer
	if xml {
		tr, err = transform.NewXMLTransformer(s, ident)
	} else {
		tr, err = transform.NewTransformer(s, ident)
	}
	if err != nil {
		c.Fail("transformer can not be built: "+err.Error(), map[string]interface{}{"schema": json.RawMessage(text), "ident": ident})
		return nil
	}
	return tr
}

func decode(raw []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(raw))
	var v interface{}
	err := dec.Decode(&v)
	return v, err
}

// canonical re-encodes JSON text with sorted members.
func canonical(raw []byte) (string, error) {
	v, err := decode(raw)
	if err != nil {
		return "", err
	}
	out, err := json.Marshal(v)
	return string(out), err
}

func str(b []byte) string { return string(b) }

func errText(err error) interface{} {
	if err == nil {
		return nil
	}
	return err.Error()
}

// oddDir is a suffix for directory names, mostly an empty one.
func oddDir(r *rand.Rand) string {
	if r.Intn(100) >= 25 {
		return ""
	}
	return []string{" b", "+", "%", "%41", "#x", "?y", "ü", "[x]", "|", ":", "\\", "&c", "\"", "~", "é\n", "'"}[r.Intn(16)]
}
