package props

import (
	"bytes"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verif/ref"
	"verif/vt"
)

// spy collects what nobody else may learn, and what the library says.
type spy struct {
	c       *vt.Ctx
	secrets map[string]string // to what it is
	texts   map[string]bool   // plaintexts
	public  map[string]bool   // 32 bytes each
	said    bytes.Buffer      // errors
	logFile *os.File
	undo    func()
}

var spyFile *os.File

// newSpy makes everything the process writes go to a file.
func newSpy(c *vt.Ctx) *spy {
	if spyFile == nil {
		spyFile = must(os.CreateTemp("", "said"))
		must0(os.Remove(spyFile.Name()))
	}
	must0(spyFile.Truncate(0))
	must(spyFile.Seek(0, io.SeekStart))
	s := &spy{c: c, secrets: map[string]string{}, texts: map[string]bool{}, public: map[string]bool{}}
	so, se, lw := os.Stdout, os.Stderr, log.Writer()
	os.Stdout, os.Stderr = spyFile, spyFile
	log.SetOutput(spyFile)
	vt.Given = func(b []byte) { s.secret("randomness given", b) }
	s.undo = func() {
		os.Stdout, os.Stderr = so, se
		log.SetOutput(lw)
		vt.Given = nil
	}
	return s
}

func (s *spy) secret(what string, b []byte) {
	if s != nil && len(b) >= window {
		if _, ok := s.secrets[string(b)]; !ok {
			s.secrets[string(b)] = what
		}
	}
}

func (s *spy) text(b []byte) {
	if s == nil {
		return
	}
	if len(b) > 600 {
		b = append(append([]byte{}, b[:500]...), b[len(b)-100:]...)
	}
	s.texts[string(b)] = true
}

func (s *spy) pub(typed []byte) {
	if s != nil && len(typed) == 33 {
		s.public[string(typed[1:])] = true
	}
}

func (s *spy) err(err error) {
	if s != nil && err != nil {
		fmt.Fprintf(&s.said, "%v\n%+v\n", err, err)
	}
}

// world takes note of what the stores hold now.
func (s *spy) world(w *world) {
	if s == nil {
		return
	}
	for _, p := range w.ps {
		for _, x := range wholeKeys(p.st.Sess) {
			s.secret(fmt.Sprintf("stored by %d", p.idx), x)
		}
	}
}

func (s *spy) groups(g *gworld) {
	if s == nil {
		return
	}
	for _, u := range g.us {
		for _, x := range wholeKeys(u.st) {
			s.secret(fmt.Sprintf("stored by %d", u.idx), x)
		}
	}
}

// messageKeys are those derived from a chain key.
func (s *spy) messageKeys(what string, ck []byte) {
	if len(ck) != 32 {
		return
	}
	s.secret(what+": chain key", ck)
	s.secret(what+": message key", ref.HMAC(ck, []byte{1}))
	s.secret(what+": next chain key", ref.HMAC(ck, []byte{2}))
}

const window = 8

type windows map[[window]byte]string // to the secret

func (w windows) add(x string, min int) {
	for i := 0; i+window <= len(x); i++ {
		k := [window]byte([]byte(x[i : i+window]))
		if variety(k) >= min {
			w[k] = x
		}
	}
}

// variety is the number of different bytes; small ones do not count.
func variety(k [window]byte) int {
	n := 0
	for i, b := range k {
		if b > 16 && bytes.IndexByte(k[:i], b) < 0 {
			n++
		}
	}
	return n
}

// find gives the secret a part of which is in b.
func (w windows) find(b []byte) (string, int, bool) {
	for i := 0; i+window <= len(b); i++ {
		if x, ok := w[[window]byte(b[i:])]; ok {
			return x, i, true
		}
	}
	return "", 0, false
}

// windows of all secrets and plaintexts.
func (s *spy) windows() windows {
	w := windows{}
	for x := range s.secrets {
		w.add(x, 5)
	}
	for x := range s.texts {
		w.add(x, 6)
	}
	for x := range s.public {
		for i := 0; i+window <= len(x); i++ {
			delete(w, [window]byte([]byte(x[i:])))
		}
	}
	return w
}

// isPublic tells whether a 32-byte value is the public key of a secret one.
func (s *spy) isPublic(x string) bool {
	if len(x) != 32 {
		return false
	}
	for y := range s.secrets {
		if len(y) == 32 && string(ref.Public([]byte(y))) == x {
			return true
		}
	}
	return false
}

var (
	hexRun  = regexp.MustCompile(`(?:(?:0x)?[0-9a-fA-F]{2}[ ,:-]{0,2}){8,}`)
	decRun  = regexp.MustCompile(`(?:[0-9]{1,3}[ ,]{1,2}){7,}[0-9]{1,3}`)
	b64Run  = regexp.MustCompile(`[A-Za-z0-9+/_-]{12,}`)
	oxRun   = regexp.MustCompile(`(?:0x[0-9a-f]{1,2}, ?){7,}0x[0-9a-f]{1,2}`)
	b32Run  = regexp.MustCompile(`[A-Za-z2-7]{16,}`)
	b32     = base32.StdEncoding.WithPadding(base32.NoPadding)
	quotRun = regexp.MustCompile(`"(?:[^"\\\n]|\\.)*"`)
)

// decoded gives everything a text may be meant to say.
func decoded(said []byte) [][]byte {
	out := [][]byte{said}
	for _, m := range hexRun.FindAll(said, -1) {
		x := strings.NewReplacer("0x", "", " ", "", ",", "", ":", "", "-", "").Replace(string(m))
		for o := 0; o < 2; o++ {
			y := x[o:]
			if b, err := hex.DecodeString(y[:len(y)/2*2]); err == nil {
				out = append(out, b)
			}
		}
	}
	// Runs of hexadecimal digits of which the pairs are not aligned.
	for _, m := range regexp.MustCompile(`[0-9a-fA-F]{16,}`).FindAll(said, -1) {
		for o := 0; o < 2; o++ {
			y := string(m[o:])
			if b, err := hex.DecodeString(y[:len(y)/2*2]); err == nil {
				out = append(out, b)
			}
		}
	}
	for _, m := range decRun.FindAll(said, -1) {
		var b []byte
		for _, f := range strings.FieldsFunc(string(m), func(r rune) bool { return r == ' ' || r == ',' }) {
			n, err := strconv.ParseUint(f, 10, 8)
			if err != nil {
				out = append(out, b)
				b = nil
				continue
			}
			b = append(b, byte(n))
		}
		out = append(out, b)
	}
	for _, m := range b64Run.FindAll(said, -1) {
		x := strings.NewReplacer("-", "+", "_", "/").Replace(string(m))
		for o := 0; o < 4; o++ {
			y := x[o:]
			if b, err := base64.RawStdEncoding.DecodeString(y[:len(y)/4*4]); err == nil {
				out = append(out, b)
			}
			if b, err := base64.RawStdEncoding.DecodeString(y); err == nil {
				out = append(out, b)
			}
		}
	}
	// As %#v writes them.
	for _, m := range oxRun.FindAll(said, -1) {
		var b []byte
		for _, f := range strings.Split(string(m), ",") {
			n, _ := strconv.ParseUint(strings.TrimPrefix(strings.TrimSpace(f), "0x"), 16, 8)
			b = append(b, byte(n))
		}
		out = append(out, b)
	}
	for _, m := range b32Run.FindAll(said, -1) {
		x := strings.ToUpper(string(m))
		for o := 0; o < 8; o++ {
			y := x[o:]
			if b, err := b32.DecodeString(y[:len(y)/8*8]); err == nil {
				out = append(out, b)
			}
		}
	}
	for _, m := range quotRun.FindAll(said, -1) {
		if x, err := strconv.Unquote(string(m)); err == nil {
			out = append(out, []byte(x))
		}
	}
	return out
}

var (
	hexWord = regexp.MustCompile(`\b(?:0x)?([0-9a-fA-F]{8,14})\b`)
	b64Word = regexp.MustCompile(`[A-Za-z0-9+/_-]{6,10}`)
	decWord = regexp.MustCompile(`\[[0-9]{1,3}(?: [0-9]{1,3}){3,6}\]`)
)

// abbreviated finds secrets of which only the first or last four to seven bytes
// are given, as a word. One may be by chance.
func (s *spy) abbreviated(said []byte) (string, bool) {
	ends := map[[4]byte][]string{}
	for x := range s.secrets {
		if strings.Count(x, x[:1]) > len(x)/3 {
			continue
		}
		ends[[4]byte([]byte(x[:4]))] = append(ends[[4]byte([]byte(x[:4]))], x)
		for n := 4; n < 8; n++ {
			k := [4]byte([]byte(x[len(x)-n:]))
			ends[k] = append(ends[k], x)
		}
	}
	found := map[string]string{}
	look := func(b []byte, word string) {
		if len(b) < 4 || len(b) > 7 {
			return
		}
		for _, x := range ends[[4]byte(b)] {
			if (strings.HasPrefix(x, string(b)) || strings.HasSuffix(x, string(b))) && !s.isPublic(x) {
				found[string(b)] = s.secrets[x] + " as " + word
			}
		}
	}
	for _, m := range hexWord.FindAllSubmatch(said, -1) {
		if b, err := hex.DecodeString(string(m[1])); err == nil {
			look(b, string(m[0]))
		}
	}
	for _, m := range b64Word.FindAll(said, -1) {
		x := strings.NewReplacer("-", "+", "_", "/").Replace(string(m))
		if b, err := base64.RawStdEncoding.DecodeString(x); err == nil {
			look(b, string(m))
		}
	}
	for _, m := range decWord.FindAll(said, -1) {
		var b []byte
		for _, f := range strings.Fields(strings.Trim(string(m), "[]")) {
			n, _ := strconv.ParseUint(f, 10, 8)
			b = append(b, byte(n))
		}
		look(b, string(m))
	}
	for _, m := range quotRun.FindAll(said, -1) {
		if x, err := strconv.Unquote(string(m)); err == nil {
			look([]byte(x), string(m))
		}
	}
	if len(found) < 2 {
		return "", false
	}
	var what []string
	for _, f := range found {
		what = append(what, f)
	}
	sort.Strings(what)
	return strings.Join(what[:min(3, len(what))], "; "), true
}

// judge looks for secrets in all that was said, and in what was sent.
func (s *spy) judge(sent []sentBytes) error {
	s.undo()
	must(spyFile.Seek(0, io.SeekStart))
	logged := must(io.ReadAll(spyFile))
	s.c.ClassN("bytes logged", len(logged))
	s.c.ClassN("bytes of errors", s.said.Len())
	s.c.ClassN("secrets", len(s.secrets))
	w := s.windows()
	name := func(x string) string {
		if n, ok := s.secrets[x]; ok {
			return n
		}
		return "a plaintext"
	}
	for _, src := range []struct {
		what string
		b    []byte
	}{{"log", logged}, {"error", s.said.Bytes()}} {
		for _, b := range decoded(src.b) {
			x, at, ok := w.find(b)
			if !ok || s.isPublic(x) {
				continue
			}
			lo, hi := max(0, at-60), min(len(b), at+60)
			return vt.Violate("a secret in the "+src.what, "%s: %q", name(x), b[lo:hi])
		}
	}
	for _, src := range []struct {
		what string
		b    []byte
	}{{"log", logged}, {"error", s.said.Bytes()}} {
		if what, ok := s.abbreviated(src.b); ok {
			return vt.Violate("a part of secrets in the "+src.what, "%s", what)
		}
	}
	for _, m := range sent {
		b := m.b
		for len(b) >= window {
			x, at, ok := w.find(b)
			if !ok {
				break
			}
			if !bytes.Contains(m.may, b[at:at+window]) && !s.isPublic(x) {
				return vt.Violate("a secret in a message", "%s: %s, at byte %d of %d", m.what, name(x), len(m.b)-len(b)+at, len(m.b))
			}
			b = b[at+1:]
		}
	}
	return nil
}

// sentBytes are the bytes of a message, and the secret it is meant to hold.
type sentBytes struct {
	what string
	b    []byte
	may  []byte
}
