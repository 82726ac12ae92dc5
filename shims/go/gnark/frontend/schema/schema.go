// Package schema: the walk over the leaves of a circuit, in the order of the declarations.
package schema

import (
	"errors"
	"reflect"
	"strconv"
	"strings"
)

type Visibility uint8

const (
	Unset Visibility = iota
	Internal
	Secret
	Public
	Virtual
)

type LeafInfo struct {
	Visibility Visibility
	FullName   func() string
	name       string
}

type LeafCount struct {
	Secret int
	Public int
}

type LeafHandler func(field LeafInfo, tValue reflect.Value) error

func Walk(circuit interface{}, tLeaf reflect.Type, handler LeafHandler) (LeafCount, error) {
	var count LeafCount
	v := reflect.ValueOf(circuit)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return count, errors.New("the circuit must be a pointer")
	}
	err := walk(v.Elem(), tLeaf, "", Unset, handler, &count)
	return count, err
}

func walk(v reflect.Value, tLeaf reflect.Type, name string, vis Visibility, handler LeafHandler, count *LeafCount) error {
	if v.Type() == tLeaf {
		if vis == Unset {
			vis = Secret
		}
		if vis == Public {
			count.Public++
		} else {
			count.Secret++
		}
		return handler(LeafInfo{Visibility: vis, FullName: func() string { return name }, name: name}, v)
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return walk(v.Elem(), tLeaf, name, vis, handler, count)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue
			}
			n, fvis := f.Name, vis
			if tag, ok := f.Tag.Lookup("gnark"); ok {
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				if p := strings.TrimSpace(parts[0]); p != "" {
					n = p
				}
				for _, o := range parts[1:] {
					var own Visibility
					switch strings.TrimSpace(o) {
					case "public":
						own = Public
					case "secret":
						own = Secret
					default:
						continue
					}
					if vis != Unset && vis != own {
						return errors.New(n + ": conflicting visibility")
					}
					fvis = own
				}
			}
			if name != "" {
				n = name + "_" + n
			}
			if err := walk(v.Field(i), tLeaf, n, fvis, handler, count); err != nil {
				return err
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if err := walk(v.Index(i), tLeaf, name+"_"+strconv.Itoa(i), vis, handler, count); err != nil {
				return err
			}
		}
	}
	return nil
}
