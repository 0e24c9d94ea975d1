package vrt

import "reflect"

func directSelect(def bool, cs []caser) int {
	var rc []reflect.SelectCase
	for _, c := range cs {
		rc = append(rc, c.(interface{ rcase() reflect.SelectCase }).rcase())
	}
	if def {
		rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(rc)
	if i == len(cs) {
		return -1
	}
	c := cs[i].base()
	if !c.send {
		c.ok = ok
		cs[i].(interface{ set(reflect.Value) }).set(v)
	}
	return i
}

func (r *Recver[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}

func (r *Recver[T]) set(v reflect.Value) { r.nv, _ = v.Interface().(T) }

func (r *Sender[T]) rcase() reflect.SelectCase {
	v := reflect.ValueOf(&r.nv).Elem()
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(r.ch), Send: v}
}
