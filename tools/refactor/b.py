"""Caches, lazily built tables and rewritten algorithms which keep the library's
behaviour (run in a scratch clone: python3 b.py)."""
def read(f): return open(f).read()
def write(f,s): open(f,'w').write(s)
def sub(f,*prs):
    s=read(f)
    for a,b in prs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    write(f,s)
def body(f,start,end,new):
    s=read(f)
    i=s.index(start); j=s.index(end,i)+len(end)
    write(f,s[:i]+new+s[j:])

# a real word cache: bounded, guarded, holding words nobody alters
C='models/bpemodel/wordcache.go'
sub(C,('type WordCache struct {\n','type WordCache struct {\n	mu    sync.RWMutex\n	words map[string]*Word\n'))
body(C,'func (c *WordCache) Set(','\n}\n','''func (c *WordCache) Set(key string, values *Word) {
	if c.capacity <= 0 || len(key) > 256 {
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.words == nil {
		c.words = make(map[string]*Word)
	}
	if len(c.words) >= c.capacity {
		for k := range c.words {
			delete(c.words, k)
			break
		}
	}
	c.words[strings.Clone(key)] = values
}
''')
body(C,'func (c *WordCache) Get(','\n}\n','''func (c *WordCache) Get(key string) *Word {
	c.mu.RLock()
	defer c.mu.RUnlock()
	return c.words[key]
}
''')
body(C,'func (c *WordCache) SetValues(','\n}\n','''func (c *WordCache) SetValues(keys []string, values []*Word) {
	for i, key := range keys {
		c.Set(key, values[i])
	}
}
''')
sub(C,('package bpemodel\n','package bpemodel\n\nimport (\n	"strings"\n	"sync"\n)\n'))

# merges without dropout: scan for the lowest rank, leftmost
W='models/bpemodel/word.go'
body(W,'	symbolsLen := w.Len()\n','	symbolsLen := w.Len()\n','''	if dropout <= 0 && w.Len() < 64 {
		w.mergeByScanning(merges)
		return
	}

	symbolsLen := w.Len()
''')
open(W,'a').write('''
func (w *Word) mergeByScanning(merges *MergeMap) {
	for {
		best, found := MergeValue{}, -1
		for i := 0; i+1 < w.Len(); i++ {
			m, ok := merges.Get(w.getSymbolID(i), w.getSymbolID(i+1))
			if ok && (found < 0 || m.Rank < best.Rank) {
				best, found = m, i
			}
		}
		if found < 0 {
			break
		}
		(*w)[found].MergeWith((*w)[found+1], best.ID)
		w.removeSymbol(found + 1)
	}
	for i, symbol := range *w {
		symbol.Prev, symbol.Next = i-1, i+1
		if i+1 == w.Len() {
			symbol.Next = -1
		}
	}
}
''')

# lazily built byte table
B='pretokenizers/bytelevelpretokenizer/bytelevelpretokenizer.go'
body(B,'var byteToRune [0x100]rune','func init() {\n','''var (
	byteToRune     [0x100]rune
	byteToRuneOnce sync.Once
)

func runeOfByte(b byte) rune {
	byteToRuneOnce.Do(fillByteToRune)
	return byteToRune[b]
}

func fillByteToRune() {
''')
sub(B,('byteToRune[byteVal]','runeOfByte(byteVal)'),('	"unicode"\n','	"sync"\n	"unicode"\n'))
body(B,'func startsWithWhitespace','\n}\n','''func startsWithWhitespace(s string) bool {
	r, size := utf8.DecodeRuneInString(s)
	return size > 0 && unicode.Is(unicode.White_Space, r)
}
''')
# compiled literals kept, guarded
S='splitpattern/string.go'
body(S,'func FromString','\n}\n','''func FromString(s string) *StringSplitPattern {
	sp := &StringSplitPattern{s: s}
	if len(s) == 0 {
		return sp
	}
	if known, ok := literals.Load(s); ok {
		sp.r = known.(*RegexpSplitPattern)
		return sp
	}
	sp.r = FromRegexp(regexp.MustCompile(regexp.QuoteMeta(s)))
	if atomic.AddInt32(&nLiterals, 1) <= 1000 {
		literals.Store(s, sp.r)
	}
	return sp
}

// At most 1000 compiled strings
var (
	literals  sync.Map
	nLiterals int32
)
''')
sub(S,('	"regexp"\n','	"regexp"\n	"sync"\n	"sync/atomic"\n'))
# regexp2 iteration without a list of matches
R='splitpattern/regexp2.go'
body(R,'	matches := make([]*regexp2.Match, 0)','	if prev != len(s) {','''	type span struct{ from, to int }
	var spans []span
	for match != nil {
		spans = append(spans, span{positions[match.Index], positions[match.Index+match.Length]})
		if match, err = sp.r.FindNextMatch(match); err != nil {
			return nil, err
		}
	}
	for i := range spans {
		m := spans[i]
		if sp.r.RightToLeft() {
			m = spans[len(spans)-1-i]
		}
		if prev != m.from {
			splits = append(splits, Capture{Offsets: strutils.ByteOffsets{Start: prev, End: m.from}})
		}
		splits = append(splits, Capture{Offsets: strutils.ByteOffsets{Start: m.from, End: m.to}, IsMatch: true})
		prev = m.to
	}

	if prev != len(s) {''')
# vocabulary guarded, free ID remembered
V='vocabulary/vocabulary.go'
sub(V,('	idToTerm map[int]string\n}','	idToTerm map[int]string\n	nextID   int\n}'))
body(V,'	id := v.Size()\n','	v.termToID[term] = id\n','''	if v.nextID < len(v.termToID) {
		v.nextID = len(v.termToID)
	}
	for {
		if _, taken := v.idToTerm[v.nextID]; !taken {
			break
		}
		v.nextID++
	}
	id := v.nextID
	v.termToID[term] = id
''')
# patterns built once
P='pretokenizers/bertpretokenizer/bertpretokenizer.go'
body(P,'	isWhitespacePattern := ','		return unicode.In(r, unicode.Punct)\n	})\n','')
open(P,'a').write('''
var isWhitespacePattern = splitpattern.FromFunc(func(r rune) bool {
	return unicode.Is(unicode.White_Space, r)
})

var isBertPunctuationPattern = splitpattern.FromFunc(unicode.IsPunct)
''')
P='pretokenizers/metaspacepretokenizer/metaspacepretokenizer.go'
body(P,'			err := ns.Replace','			if err != nil {\n				return nil, err\n			}\n','''			if strings.Contains(ns.Get(), " ") {
				if err := ns.Replace(splitpattern.FromRune(' '), m.strReplacement); err != nil {
					return nil, err
				}
			}
''')
# normalized strings: transformation by cells
N='normalizedstring/normalizedstring.go'
body(N,'	// Retrieve the original characters that are being replaced. This','	for _, runeChange := range dest {','''	sizes := make([]int, 0, normalizedRange.Len())
	for rest := ns.normalized[normalizedRange.start:normalizedRange.end]; len(rest) > 0; {
		_, size := utf8.DecodeRuneInString(rest)
		sizes = append(sizes, size)
		rest = rest[size:]
	}
	offset := normalizedRange.start
	advance := func(n int) {
		if n > len(sizes) {
			panic("TransformRange: not enough runes")
		}
		for _, size := range sizes[:n] {
			offset += size
		}
		sizes = sizes[n:]
	}
	advance(initialOffset)

	alignments := make([]AlignmentRange, 0, normalizedRange.Len())

	var normalizedBuilder strings.Builder

	for _, runeChange := range dest {''')
body(N,'		// If we are replacing a character, find it','		offset += totalBytesToRemove\n','''		// Step over the replaced character and the removed ones
		if runeChange.Change <= 0 {
			advance(1 - runeChange.Change)
		}
''')
body(N,'func runesBytesLen','\n}\n','')
s=read(N); i=s.index('// runesBytesLen') if '// runesBytesLen' in s else -1
if i>=0:
    j=s.index('\n\n',i); write(N,s[:i]+s[j+2:])
body(N,'	transformations := make([]RuneChange, 0, len(s)+1)\n\n	for i, r := range s {','	ns.TransformRange(NewNormalizedRange(0, firstRuneBytesLen), transformations, 0)\n','''	first, size := utf8.DecodeRuneInString(ns.normalized)
	changes := make([]RuneChange, 0, len(s)+1)
	for _, r := range s + string(first) {
		changes = append(changes, RuneChange{Rune: r, Change: 1})
	}
	changes[0].Change = 0
	ns.TransformRange(NewNormalizedRange(0, size), changes, 0)
''')
body(N,'func (ns *NormalizedString) ToLower()','\n}\n','''func (ns *NormalizedString) ToLower() {
	if isPlainLower(ns.normalized) {
		return
	}
	ns.Map(unicode.ToLower)
}

func isPlainLower(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf || 'A' <= s[i] && s[i] <= 'Z' {
			return false
		}
	}
	return true
}
''')
body(N,'	start := -1\n	end := -1\n','	switch {\n','''	start := -1
	end := -1

	limit := 0
	for limit < len(ns.alignments) && ns.alignments[limit].end <= r.End() {
		limit++
	}
	if limit > 0 {
		end = limit
	}
	for i, cell := range ns.alignments[:limit] {
		if cell.start >= r.Start() && cell.start < cell.end {
			start = i
			break
		}
	}

	switch {
''')
