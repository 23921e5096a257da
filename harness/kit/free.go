package kit

import (
	"reflect"
	"unsafe"

	"github.com/allegro/bigcache/v3"

	minievmapp "github.com/initia-labs/minievm/app"
)

// Free stops the background work of an app which is not used any more, which otherwise keeps 100 MB of it alive.
func Free(app *minievmapp.MinitiaApp) {
	if app == nil {
		return
	}
	if c := findCache(reflect.ValueOf(app.EVMIndexer()), 4); c != nil {
		_ = c.Close()
	}
}

var cacheType = reflect.TypeOf((*bigcache.BigCache)(nil))

// findCache looks for the indexer's cache.
func findCache(v reflect.Value, depth int) *bigcache.BigCache {
	for v.Kind() == reflect.Interface || (v.Kind() == reflect.Ptr && v.Type() != cacheType) {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr && v.Type() == cacheType {
		return (*bigcache.BigCache)(unsafe.Pointer(v.Pointer()))
	}
	if v.Kind() != reflect.Struct || depth == 0 {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		switch f := v.Field(i); f.Kind() {
		case reflect.Interface, reflect.Ptr, reflect.Struct:
			if c := findCache(f, depth-1); c != nil {
				return c
			}
		}
	}
	return nil
}
