package world

import (
	"encoding/base64"
	"encoding/json"
	"reflect"
	"strings"
	"unicode/utf8"
)

// Strings that are no valid UTF-8 are kept in base64 behind this mark, so that
// a replay file carries every byte.
const rawMark = "\ufdd0"

type plainScenario Scenario

// MarshalJSON implements json.Marshaler.
func (sc *Scenario) MarshalJSON() ([]byte, error) {
	enc := func(s string) string {
		if utf8.ValidString(s) && !strings.HasPrefix(s, rawMark) {
			return s
		}
		return rawMark + base64.StdEncoding.EncodeToString([]byte(s))
	}
	mapStrings(reflect.ValueOf((*plainScenario)(sc)), enc)
	defer mapStrings(reflect.ValueOf((*plainScenario)(sc)), decRaw)
	return json.Marshal((*plainScenario)(sc))
}

// UnmarshalJSON implements json.Unmarshaler.
func (sc *Scenario) UnmarshalJSON(b []byte) error {
	if err := json.Unmarshal(b, (*plainScenario)(sc)); err != nil {
		return err
	}
	mapStrings(reflect.ValueOf((*plainScenario)(sc)), decRaw)
	return nil
}

func decRaw(s string) string {
	if !strings.HasPrefix(s, rawMark) {
		return s
	}
	b, err := base64.StdEncoding.DecodeString(s[len(rawMark):])
	if err != nil {
		return s
	}
	return string(b)
}

// mapStrings applies f to all strings below v.
func mapStrings(v reflect.Value, f func(string) string) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			mapStrings(v.Elem(), f)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				mapStrings(v.Field(i), f)
			}
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k >= reflect.Bool && k <= reflect.Complex128 {
			return
		}
		for i := 0; i < v.Len(); i++ {
			mapStrings(v.Index(i), f)
		}
	case reflect.String:
		if v.CanSet() {
			if s := v.String(); s != "" {
				if t := f(s); t != s {
					v.SetString(t)
				}
			}
		}
	}
}
