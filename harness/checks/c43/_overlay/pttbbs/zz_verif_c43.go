package pttbbs

import (
	"reflect"

	"github.com/Ptt-official-app/go-bbs"
)

// VerifFlags looks a user's preferences up among these accounts
func VerifFlags(accounts []bbs.UserRecord, userid string) (map[string]bool, error) {
	userRecs = accounts
	f, err := getUserFlagAllByID(userid)
	if err != nil || f == nil {
		return nil, err
	}
	out := map[string]bool{}
	v := reflect.ValueOf(*f)
	for i := 0; i < v.NumField(); i++ {
		out[v.Type().Field(i).Name] = v.Field(i).Bool()
	}
	return out, nil
}
