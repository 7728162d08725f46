package cache

import (
	"fmt"
	"sync"
	"testing"

	"github.com/cespare/xxhash"
)

// keys that fall into the shard of "k0"
func sameShard(n int) []string {
	var out []string
	for i := 0; len(out) < n; i++ {
		k := fmt.Sprint("k", i)
		if xxhash.Sum64([]byte(k))&(defaultShards-1) == 7 {
			out = append(out, k)
		}
	}
	return out
}

const hour = uint64(3600) * 1000000000

// C33: after wrap-around a lookup returns the oldest instead of the newest value.
func TestDefectStaleAfterWrap(t *testing.T) {
	c := NewCache()
	ks := sameShard(1100)
	c.Set(ks[1], 0)
	c.Set(ks[0], "old") // slot 1
	for i := 2; i <= 20; i++ {
		c.Set(ks[i], i)
	}
	c.Set(ks[0], "new")
	for i := 21; c.shards[7].cursor != 1; i++ { // until slot 1 is the oldest
		c.Set(ks[i], i)
	}
	if _, v := c.Get(ks[0], hour); v != "new" {
		t.Fatal("got", v)
	}
}

// C33: an expired slot near the cursor hides fresh entries.
func TestDefectExpiredNeighbourHidesFresh(t *testing.T) {
	c := NewCache()
	ks := sameShard(3)
	c.Set(ks[0], "fresh")
	c.Set(ks[1], "old")
	c.shards[7].items[1].modTime = 1
	if ok, _ := c.Get(ks[0], hour); !ok {
		t.Fatal("fresh entry not found")
	}
}

// C33: an expired entry deeper than eight slots is returned.
func TestDefectExpiredReturned(t *testing.T) {
	c := NewCache()
	ks := sameShard(30)
	for _, k := range ks {
		c.Set(k, k)
	}
	c.shards[7].items[0].modTime = 1
	if ok, _ := c.Get(ks[0], hour); ok {
		t.Fatal("expired entry returned")
	}
}

// C33: Find reports a garbage age when the entry sits in the slot at the cursor.
func TestDefectFindAge(t *testing.T) {
	c := NewCache()
	ks := sameShard(1100)
	for i := 0; i < 1024+5; i++ {
		c.Set(ks[i], i)
	}
	// oldest entry is at the cursor
	if ok, _, age := c.Find(ks[5]); !ok || age > hour {
		t.Fatal("age", age)
	}
}

// C34: a shard that was created but not yet filled makes a lookup panic.
func TestDefectEmptyShardPanics(t *testing.T) {
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	c := NewCache()
	c.shards[7] = newShard()
	c.Get(sameShard(1)[0], hour)
}

// C07: run with -race.
func TestDefectCacheRace(t *testing.T) {
	c := NewCache()
	ks := sameShard(4)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { recover() }()
			for n := 0; n < 1000; n++ {
				c.Set(ks[i], n)
				c.Get(ks[(i+1)%4], hour)
				c.Find(ks[(i+2)%4])
			}
		}(i)
	}
	wg.Wait()
}
