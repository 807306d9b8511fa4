package rec

import (
	"fmt"
	"reflect"
	"strings"
	"time"
)

// Snapshot prints what a record shows: its exported fields and what its methods
// without arguments return, through pointers, slices and interfaces.
func Snapshot(v any) string {
	var sb strings.Builder
	snapshot(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

var timeType = reflect.TypeOf(time.Time{})

func snapshot(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		sb.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		snapshot(sb, v.Elem(), depth+1)
	case reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('&')
		if v.Elem().Kind() == reflect.Struct {
			for i := 0; i < v.NumMethod(); i++ {
				m := v.Type().Method(i)
				// Records shows the sub-tree which the fields show too
				if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || m.Name == "Records" || m.Name == "Close" {
					continue
				}
				fmt.Fprintf(sb, "%s()=", m.Name)
				for _, out := range v.Method(i).Call(nil) {
					snapshot(sb, out, depth+1)
				}
				sb.WriteByte(';')
			}
		}
		snapshot(sb, v.Elem(), depth+1)
	case reflect.Struct:
		if v.Type() == timeType {
			t := v.Interface().(time.Time)
			fmt.Fprintf(sb, "%d.%d", t.Unix(), t.Nanosecond())
			return
		}
		sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				fmt.Fprintf(sb, "%s=", f.Name)
				snapshot(sb, v.Field(i), depth+1)
				sb.WriteByte(';')
			}
		}
		sb.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(sb, "%02x", v.Index(i).Uint())
			}
			return
		}
		sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			snapshot(sb, v.Index(i), depth+1)
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(sb, v.Uint())
	case reflect.Map:
		fmt.Fprint(sb, "map of ", v.Len())
	default:
		fmt.Fprint(sb, v.Kind())
	}
}

// Scribble changes everything which can be reached and set from the outside of a
// record: exported fields and the elements of slices, those of methods included.
// It returns how many values it changed.
func Scribble(v any) int { return scribble(reflect.ValueOf(v), 0) }

func scribble(v reflect.Value, depth int) (n int) {
	if depth > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			n += scribble(v.Elem(), depth+1)
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Struct {
			for i := 0; i < v.NumMethod(); i++ {
				m := v.Type().Method(i)
				if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 || m.Name == "Records" || m.Name == "Close" {
					continue
				}
				for _, out := range v.Method(i).Call(nil) {
					if out.Kind() == reflect.Slice {
						n += scribble(out, depth+1)
					}
				}
			}
		}
		n += scribble(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n += scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n += scribble(v.Index(i), depth+1)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "!")
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(^v.Int())
			n++
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(^v.Uint() & (1<<(8*uint(v.Type().Size())) - 1))
			n++
		}
	}
	return
}
