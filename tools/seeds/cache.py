CH = r'''
package cache

import (
	"fmt"
	"testing"
)

const long = uint64(1) << 60
'''
bug("c33-clutter-oldest-first", "C33", "cache",
 "Set, then Get of the same key (which adds it again), then Set of another value while both entries are among the last eight",
 "Set refreshes the older of two recent entries of a key, so lookups keep returning the value before",
 [("cache/set.go", "for i := 1; i < defaultNoClutter; i++ {", "for i := defaultNoClutter - 1; i > 0; i-- {")],
 CH + r'''
func TestDemo(t *testing.T) {
	_ = fmt.Sprint
	c := NewCache()
	c.Set("k", 1)
	c.Get("k", long)
	c.Set("k", 2)
	if ok, v := c.Get("k", long); !ok || v != 2 {
		t.Fatal(ok, v)
	}
}
''')
bug("c33-wrap-mirrored", "C33", "cache",
 "a shard that has wrapped around, and a key stored twice before the wrap",
 "after a wrap the scan visits the far end of the ring in the wrong order and returns an old value of a key",
 [("cache/find.go", "			itemID = itemID + defaultItems\n", "			itemID = -itemID\n")],
 CH.replace('"testing"', '"testing"\n\n\t"github.com/cespare/xxhash"') + r'''
func TestDemo(t *testing.T) {
	c := NewCache()
	// a shard that the cache does not use otherwise
	var keys []string
	for n := 0; len(keys) < 1040; n++ {
		k := fmt.Sprint("key", n)
		if xxhash.Sum64([]byte(k))%256 == 0 {
			keys = append(keys, k)
		}
	}
	for i := 0; i < 1000; i++ {
		c.Set(keys[i], i)
	}
	c.Set(keys[100], "new")
	for i := 1000; i < 1035; i++ {
		c.Set(keys[i], i)
	}
	if ok, v, _ := c.Find(keys[100]); !ok || v != "new" {
		t.Fatal(ok, v)
	}
}
''')
bug("c33-folded-keys", "C33", "cache",
 "two keys that differ only in the case of their letters",
 "a lookup of a key returns the value of another key",
 [("cache/%s.go" % f, "xxhash.Sum64([]byte(key))", "xxhash.Sum64(bytes.ToLower([]byte(key)))") for f in ("get", "find", "set")] +
 [("cache/%s.go" % f, "import (\n", "import (\n	\"bytes\"\n") for f in ("get", "find", "set")],
 CH + r'''
func TestDemo(t *testing.T) {
	_ = fmt.Sprint
	c := NewCache()
	c.Set("/A", 1)
	if ok, v := c.Get("/a", long); ok {
		t.Fatal(v)
	}
}
''')
bug("c33-update-keeps-time", "C33", "cache",
 "a value stored again within the last eight entries, and read after the age of the first Set has passed",
 "storing a value again does not make it fresh, it expires with the first one",
 [("cache/set.go", "			c.shards[id].items[itemID].modTime = uint64(time.Now().UnixNano())\n", "			if c.shards[id].items[itemID].modTime == 0 {\n				c.shards[id].items[itemID].modTime = uint64(time.Now().UnixNano())\n			}\n")],
 CH.replace('"fmt"', '"time"') + r'''
func TestDemo(t *testing.T) {
	c := NewCache()
	c.Set("k", 1)
	time.Sleep(300 * time.Millisecond)
	c.Set("k", 2)
	if ok, _ := c.Get("k", 200000000); !ok {
		t.Fatal("expired")
	}
}
''')
bug("c34-ring-full", "C34", "cache",
 "more than 1024 entries in one shard",
 "the entry after the last slot is stored outside of the ring",
 [("cache/set.go", "cursor > defaultItems-1 {", "cursor > defaultItems {")],
 CH + r'''
func TestDemo(t *testing.T) {
	c := NewCache()
	for i := 0; i < 1024*256*2; i++ {
		c.Set(fmt.Sprint(i), i)
	}
}
''')
