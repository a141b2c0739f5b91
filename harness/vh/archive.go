package vh

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// Archived is a submission made by an earlier build, with its configuration.
type Archived struct {
	Curve  string          `json:"curve"`
	Field  int             `json:"field"` // length, 0 for the system's own
	Key    string          `json:"key,omitempty"`
	Lo     uint16          `json:"lo,omitempty"`
	Hi     uint16          `json:"hi,omitempty"`
	Bits   int64           `json:"bits"`
	Bx     int             `json:"bx,omitempty"`
	Bc     int             `json:"bc,omitempty"`
	Vote   string          `json:"vote"`
	Secret string          `json:"secret,omitempty"` // blinding factor
	Data   json.RawMessage `json:"data"`
}

// ReadArchive reads an archive of the harness.
func ReadArchive(name string, v any) error {
	f, err := os.Open(filepath.Join(os.Getenv("VERIF_DATA"), name))
	if err != nil {
		return err
	}
	defer f.Close()
	z, err := gzip.NewReader(f)
	if err != nil {
		return err
	}
	return json.NewDecoder(z).Decode(v)
}

// WriteArchive writes one (only when the archive is made anew).
func WriteArchive(name string, v any) error {
	f, err := os.Create(filepath.Join(os.Getenv("VERIF_DATA"), name))
	if err != nil {
		return err
	}
	z, _ := gzip.NewWriterLevel(f, 9)
	if err := json.NewEncoder(z).Encode(v); err != nil {
		return err
	}
	if err := z.Close(); err != nil {
		return err
	}
	return f.Close()
}

// Rewrite writes a JSON text differently: members in another order, other
// white space. Numbers keep their digits.
func Rewrite(rt *rapid.T, b []byte) ([]byte, string) {
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var v any
	if err := dec.Decode(&v); err != nil {
		return b, "as archived"
	}
	switch Pick(rt, 3, "written") {
	case 0:
		return b, "as archived"
	case 1:
		out, err := json.MarshalIndent(v, "", " \t")
		if err != nil {
			return b, "as archived"
		}
		return out, "indented"
	default:
		r := rand.New(rand.NewSource(int64(Seed64(rt, "order"))))
		var buf bytes.Buffer
		shuffled(&buf, v, r)
		return buf.Bytes(), "in another order"
	}
}

func shuffled(buf *bytes.Buffer, v any, r *rand.Rand) {
	switch x := v.(type) {
	case map[string]any:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		// The order of a map is not the seed's.
		for i := range keys {
			for j := i + 1; j < len(keys); j++ {
				if keys[j] < keys[i] {
					keys[i], keys[j] = keys[j], keys[i]
				}
			}
		}
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		buf.WriteString("{")
		for i, k := range keys {
			if i > 0 {
				buf.WriteString(" ,")
			}
			q, _ := json.Marshal(k)
			buf.Write(q)
			buf.WriteString(": ")
			shuffled(buf, x[k], r)
		}
		buf.WriteString("}\n")
	case []any:
		buf.WriteString("[ ")
		for i, e := range x {
			if i > 0 {
				buf.WriteString(", ")
			}
			shuffled(buf, e, r)
		}
		buf.WriteString("]")
	default:
		q, _ := json.Marshal(x)
		buf.Write(q)
	}
}

// Lists writes empty lists in one way.
func Lists(s string) string { return strings.ReplaceAll(s, ":null", ":[]") }
