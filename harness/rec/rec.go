// Package rec ties the fields of the reference layouts to the values which the
// code under test exports.
package rec

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/harness/gen"

	"github.com/Ptt-official-app/go-bbs/pttbbs"
)

// Values maps field names to a pointer to the exported field or to a getter
type Values map[string]any

func get(v any) any {
	switch p := v.(type) {
	case *uint8:
		return uint64(*p)
	case *uint16:
		return uint64(*p)
	case *uint32:
		return uint64(*p)
	case *int16:
		return int64(*p)
	case *int32:
		return int64(*p)
	case *int:
		return int64(*p)
	case *bool:
		return *p
	case *string:
		return *p
	case *time.Time:
		return *p
	case *pttbbs.MessageQueueCache:
		return []byte(*p)
	case func() string:
		return p()
	case func() int:
		return int64(p())
	case func() uint8:
		return uint64(p())
	case func() uint32:
		return uint64(p())
	case func() time.Time:
		return p()
	case func() []string:
		return strings.Join(p(), "/")
	}
	panic(fmt.Sprintf("rec: %T", v))
}

func equal(f gen.Field, want, got any) bool {
	switch g := got.(type) {
	case time.Time:
		w := want.(uint64)
		if g.IsZero() {
			return w == 0
		}
		return g.Unix() == int64(w) && g.Nanosecond() == 0
	case []byte:
		return string(g) == string(want.([]byte))
	case string:
		switch w := want.(type) {
		case []byte: // one raw character
			return g == strings.TrimRight(string(w), "\x00")
		case string:
			return g == w
		}
	case uint64:
		switch w := want.(type) {
		case uint64:
			return g == w
		case int64:
			return int64(g) == w
		}
	case int64:
		switch w := want.(type) {
		case uint64:
			return g == int64(w)
		case int64:
			return g == w
		}
	case bool:
		return g == want.(bool)
	}
	return false
}

// Compare checks the decoded values against those in the stored record
func Compare(l *gen.Layout, raw []byte, vs Values) error {
	names := make([]string, 0, len(vs))
	for n := range vs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f := l.Find(n)
		want, got := f.Value(raw), get(vs[n])
		if !equal(f, want, got) {
			return fmt.Errorf("%s: field %s is stored as %v (%T) and read as %v", l.Name, n, show(want), want, show(got))
		}
	}
	return nil
}

func show(v any) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case []byte:
		return fmt.Sprintf("%x", x)
	case time.Time:
		return fmt.Sprintf("%v (%d)", x, x.Unix())
	}
	return fmt.Sprint(v)
}

// Assign sets the fields which can be set to the values of the stored record and
// returns their names.
func Assign(l *gen.Layout, raw []byte, vs Values) map[string]bool {
	set := map[string]bool{}
	for n, v := range vs {
		f := l.Find(n)
		val := f.Value(raw)
		var u uint64
		switch x := val.(type) {
		case uint64:
			u = x
		case int64:
			u = uint64(x)
		}
		set[n] = true
		switch p := v.(type) {
		case *uint8:
			*p = uint8(u)
		case *uint16:
			*p = uint16(u)
		case *uint32:
			*p = uint32(u)
		case *int16:
			*p = int16(u)
		case *int32:
			*p = int32(u)
		case *int:
			*p = int(u)
		case *bool:
			*p = val.(bool)
		case *string:
			switch x := val.(type) {
			case string:
				*p = x
			case []byte:
				*p = strings.TrimRight(string(x), "\x00")
			}
		case *time.Time:
			*p = time.Unix(int64(u), 0)
		case *pttbbs.MessageQueueCache:
			*p = append(pttbbs.MessageQueueCache{}, val.([]byte)...)
		default:
			delete(set, n)
		}
	}
	return set
}

// Merge makes the record which has the named fields of b and all others of a
func Merge(l *gen.Layout, a, b []byte, fromB map[string]bool) []byte {
	out := append([]byte{}, a...)
	for _, f := range l.Fields {
		if fromB[f.Name] {
			copy(out[f.Off:f.Off+f.Size], b[f.Off:f.Off+f.Size])
		}
	}
	return out
}

// Board lists what a board header shows of its record
func Board(b *pttbbs.BoardHeader) Values {
	return Values{
		"brdname": &b.BrdName, "title": b.Title, "bm": b.BM, "brdattr": &b.Brdattr, "chesscountry": &b.ChessCountry,
		"vote_limit_posts": &b.VoteLimitPosts, "vote_limit_logins": &b.VoteLimitLogins, "bupdate": &b.BUpdate,
		"post_limit_posts": &b.PostLimitPosts, "post_limit_logins": &b.PostLimitLogins, "bvote": &b.BVote,
		"vtime": &b.VTime, "level": &b.Level, "perm_reload": &b.PermReload, "gid": &b.Gid,
		"next0": &b.Next[0], "next1": &b.Next[1], "firstchild0": &b.FirstChild[0], "firstchild1": &b.FirstChild[1],
		"parent": &b.Parent, "childcount": &b.ChildCount, "nuser": &b.Nuser, "postexpire": &b.PostExpire,
		"endgamble": &b.EndGamble, "posttype": &b.PostType, "posttype_f": &b.PostTypeF,
		"fastrecommend_pause": &b.FastRecommendPause, "vote_limit_badpost": &b.VoteLimitBadPost,
		"post_limit_badpost": &b.PostLimitBadPost, "srexpire": &b.SRexpire,
	}
}

// NewBoard builds a header from the stored values through the exported fields and
// setters, without the decoder; there is none for the moderators.
func NewBoard(raw []byte) *pttbbs.BoardHeader {
	b := pttbbs.NewBoardHeader()
	b.Next, b.FirstChild = make([]int32, 2), make([]int32, 2)
	Assign(gen.Board, raw, Board(b))
	b.SetTitle(gen.Board.Find("title").Value(raw).(string))
	b.SetBoardID(gen.Board.Find("brdname").Value(raw).(string))
	return b
}

// Article lists what a file header shows of its record
func Article(a *pttbbs.FileHeader) Values {
	v := Values{
		"filename": a.Filename, "modified": a.Modified, "recommend": a.Recommend, "owner": a.Owner,
		"date": a.Date, "title": a.Title, "filemode": &a.Filemode,
	}
	switch mode := a.Filemode; {
	case mode&0x40 != 0:
		v["multi"] = func() uint32 {
			return uint32(a.VoteLimits.Posts) | uint32(a.VoteLimits.Logins)<<8 | uint32(a.VoteLimits.Regtime)<<16 | uint32(a.VoteLimits.Badpost)<<24
		}
	case mode&0x80 != 0:
		v["multi"] = func() uint32 { return uint32(a.AnnoUID) }
	default:
		v["multi"] = func() uint32 { return uint32(a.Money()) }
	}
	return v
}

// NewArticle builds a header through the setters; money has none.
func NewArticle(raw []byte) *pttbbs.FileHeader {
	val := func(n string) any { return gen.Article.Find(n).Value(raw) }
	a := pttbbs.NewFileHeader()
	a.SetFilename(val("filename").(string))
	a.SetModified(time.Unix(int64(val("modified").(uint64)), 0))
	a.SetOwner(val("owner").(string))
	a.SetDate(val("date").(string))
	a.SetTitle(val("title").(string))
	a.Filemode = uint8(val("filemode").(uint64))
	u := uint32(val("multi").(uint64))
	switch {
	case a.Filemode&0x40 != 0:
		a.VoteLimits = pttbbs.VoteLimits{Posts: uint8(u), Logins: uint8(u >> 8), Regtime: uint8(u >> 16), Badpost: uint8(u >> 24)}
	case a.Filemode&0x80 != 0:
		a.AnnoUID = int(u)
	}
	a.AddRecommend(int8(val("recommend").(int64)))
	return a
}

// User lists what an account shows of its record
func User(u *pttbbs.Userec) Values {
	return Values{
		"version": &u.Version, "userid": u.UserID, "realname": u.RealName, "nickname": u.Nickname, "passwd": u.HashedPassword,
		"uflag": u.UserFlag, "userlevel": &u.UserLevel, "numlogindays": u.NumLoginDays, "numposts": u.NumPosts,
		"lastlogin": u.LastLogin, "lasthost": u.LastHost, "money": u.Money, "email": &u.Email, "address": &u.Address,
		"justify": &u.Justify, "over_18": &u.Over18, "pager_ui_type": &u.PagerUIType, "pager": &u.Pager,
		"invisible": &u.Invisible, "exmailbox": &u.ExMailBox, "career": &u.Career, "role": &u.Role,
		"lastseen": &u.LastSeen, "timesetangel": &u.TimeSetAngel, "timeplayangel": &u.TimePlayAngel,
		"lastsong": &u.LastSong, "loginview": &u.LoginView, "vl_count": &u.ViolateLaw,
		"five_win": &u.Five.Win, "five_lose": &u.Five.Lose, "five_tie": &u.Five.Tie,
		"chc_win": &u.ChineseChess.Win, "chc_lose": &u.ChineseChess.Lose, "chc_tie": &u.ChineseChess.Tie,
		"conn6_win": &u.Conn6.Win, "conn6_lose": &u.Conn6.Lose, "conn6_tie": &u.Conn6.Tie,
		"go_win": &u.GoChess.Win, "go_lose": &u.GoChess.Lose, "go_tie": &u.GoChess.Tie,
		"dark_win": &u.DarkChess.Win, "dark_lose": &u.DarkChess.Lose, "dark_tie": &u.DarkChess.Tie,
		"ua_version": &u.UaVersion, "signature": &u.Signature, "badpost": &u.BadPost, "myangel": &u.MyAngel,
		"chess_elo_rating": &u.ChessEloRating, "withme": &u.WithMe,
		"timeremovebadpost": &u.TimeRemoveBadPost, "timeviolatelaw": &u.TimeViolateLaw,
	}
}

// Online lists what an online user shows of its record
func Online(u *pttbbs.UserInfoCache) Values {
	v := Values{
		"sockaddr": &u.SockAddr, "userlevel": &u.UserLevel,
		"dark_win": &u.DarkChess.Win, "dark_lose": &u.DarkChess.Lose, "dark_tie": &u.DarkChess.Tie, "angelpause": &u.AngelPause,
		"friendtotal": &u.FriendTotal, "nFriends": &u.NumFriends, "msgcount": &u.MsgCount,
		"birth": &u.Birth, "active": &u.Active, "invisible": &u.Invisible, "mode": &u.Mode, "pager": &u.Pager,
		"conn6_win": &u.Conn6.Win, "conn6_lose": &u.Conn6.Lose, "conn6_tie": &u.Conn6.Tie,
		"lastact": &u.LastAct, "alerts": &u.Alerts, "sig": &u.Signature, "destuid": &u.DestUID, "destuip": &u.DestUIP,
		"sockactive": &u.SockActive, "in_chat": &u.InChat, "chatid": &u.ChatID, "lockmode": &u.LockMode, "turn": &u.Turn,
		"mateid": &u.MateID, "color": &u.Color,
		"five_win": &u.Five.Win, "five_lose": &u.Five.Lose, "five_tie": &u.Five.Tie,
		"chc_win": &u.ChineseChess.Win, "chc_lose": &u.ChineseChess.Lose, "chc_tie": &u.ChineseChess.Tie,
		"chess_elo_rating": &u.ChessEloRating,
		"go_win":           &u.GoChess.Win, "go_lose": &u.GoChess.Lose, "go_tie": &u.GoChess.Tie, "withme": &u.WithMe,
	}
	for i := range u.MyFriend {
		v[fmt.Sprintf("myfriend%d", i)] = &u.MyFriend[i]
	}
	for i := range u.FriendOnline {
		v[fmt.Sprintf("friend_online%d", i)] = &u.FriendOnline[i]
	}
	for i := range u.Reject {
		v[fmt.Sprintf("reject%d", i)] = &u.Reject[i]
	}
	for i := range u.Msgs {
		v[fmt.Sprintf("msgs%d", i)] = &u.Msgs[i]
	}
	return v
}
