N = "pkg/notifier/listener.go"
D = '''package notifier

import (
	"testing"

	"github.com/lib/pq"
)

func TestZZDemo(t *testing.T) {
'''
plant("N01-payload-prefix", "N01", [(N, '''	if s != "" && s != "{}" && s != "[]" {''', '''	if len(s) > 2 && s[0] == '{' {''')], "pkg/notifier", D + '''
	n := parsePayload(&pq.Notification{Extra: " {\\"a\\": 1}"})
	if len(n.Payload) != 1 {
		t.Fatal(n)
	}
}
''', "the object of a notification has white space before it", "the object is not passed to the callback")

plant("N01-payload-cut", "N01", [(N, '''		err := json.Unmarshal([]byte(s), &n.Payload)
		if err != nil {''', '''		err := json.NewDecoder(strings.NewReader(s)).Decode(&n.Payload)
		if err != nil {'''), (N, '	"io"\n', '	"io"\n	"strings"\n')], "pkg/notifier", D + '''
	n := parsePayload(&pq.Notification{Extra: `{"a": 1} trailing`})
	if len(n.Payload) != 0 {
		t.Fatal(n)
	}
}
''', "text that starts with an object and goes on", "an object is passed that the text is not")

plant("N01-raw-null", "N01", [(N, '''		RawPayload: in.Extra,
	}
	s := in.Extra''', '''		RawPayload: strings.TrimSpace(in.Extra),
	}
	s := in.Extra'''), (N, '	"io"\n', '	"io"\n	"strings"\n')], "pkg/notifier", D + '''
	n := parsePayload(&pq.Notification{Extra: "a \\n"})
	if n.RawPayload != "a \\n" {
		t.Fatal(n)
	}
}
''', "the text of a notification ends with white space", "another text is passed")

