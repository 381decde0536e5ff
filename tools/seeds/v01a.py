ID="v01-suffix-drops-letter"
PROP="V01"
NEEDS="two versions with the same numbers and the same pre-release suffix whose letters differ"
BREAKS="the letter is only compared for versions without a pre-release suffix"
EDITS=[("pkg/apk/version.go","""	if actual.letter > required.letter {
		return greater
	}
	if actual.letter < required.letter {
		return less
	}
""","""	if actual.preSuffix == packageVersionPreModifierNone || required.preSuffix == packageVersionPreModifierNone {
		if actual.letter > required.letter {
			return greater
		}
		if actual.letter < required.letter {
			return less
		}
	}
""")]
PKG="pkg/apk"
TEST='''package apk

import "testing"

func TestDemo(t *testing.T) {
	v := func(s string) Version {
		p, err := ParseVersion(s)
		if err != nil {
			t.Fatal(err)
		}
		return p
	}
	if CompareVersions(v("1.0a_rc2"), v("1.0b_rc1")) != less {
		t.Error("1.0a_rc2 is not before 1.0b_rc1")
	}
}
'''
