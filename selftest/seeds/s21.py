import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HEAD='''package unixtime

import (
	"encoding/json"
	"testing"
	"time"

	"gopkg.in/yaml.v3"
)

var _ = json.Marshal
var _ = yaml.Marshal
var _ = time.Now

func TestSeedDemo(t *testing.T) {
'''
def T(b): return HEAD+b+"\n}\n"
U="unixtime/unixtime.go"
SEEDS=[
dict(id="c39-nano-range", prop="C39", pkg="./unixtime", edits=[(U,'''	sec, dec := math.Modf(f)
	u.Time = time.Unix(int64(sec), int64(dec*(1e9)))''','''	u.Time = time.Unix(0, int64(math.Trunc(f*1e9)))''')],
 demo=T('''	var u Unixtime
	if err := json.Unmarshal([]byte("9999999999"), &u); err != nil || u.Year() != 2286 {
		t.Fatal(u, err)
	}'''), needs="a time after the year 2262", breaks="it overflows, so a statement that never expires counts as expired"),
dict(id="c39-milli", prop="C39", pkg="./unixtime", edits=[(U,'''	return float64(d.Nanoseconds()) / float64(time.Second), nil''','''	return float64(d.Milliseconds()) / 1000, nil''')],
 demo=T('''	b, err := yaml.Marshal(NewDurationInSeconds(0.0005))
	if err != nil {
		t.Fatal(err)
	}
	var d DurationInSeconds
	if err = yaml.Unmarshal(b, &d); err != nil || d.Duration != 500*time.Microsecond {
		t.Fatal(d, err)
	}'''), needs="a duration below a millisecond", breaks="it is written as zero"),
dict(id="c39-negative-floor", prop="C39", pkg="./unixtime", edits=[(U,'''	sec, dec := math.Modf(f)
''','''	sec := math.Floor(f)
	_, dec := math.Modf(f)
''')],
 demo=T('''	var u Unixtime
	if err := json.Unmarshal([]byte("-1.5"), &u); err != nil || !u.Equal(time.Unix(-2, 5e8)) {
		t.Fatal(u.Unix(), err)
	}'''), needs="a time with a fraction before 1970", breaks="it is a second too early"),
dict(id="c39-yaml-int", prop="C39", pkg="./unixtime", edits=[(U,'''	var f float64
	if err := value.Decode(&f); err != nil {
		return err
	}
	*d = NewDurationInSeconds(f)''','''	var f float64
	if err := value.Decode(&f); err != nil {
		return err
	}
	if f >= 3600 {
		f = math.Round(f)
	}
	*d = NewDurationInSeconds(f)''')],
 demo=T('''	var d DurationInSeconds
	if err := yaml.Unmarshal([]byte("3600.25"), &d); err != nil || d.Duration != time.Hour+250*time.Millisecond {
		t.Fatal(d, err)
	}'''), needs="a configured duration over an hour with a fraction", breaks="the fraction is lost"),
]
