import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HEAD='''package cache

import (
	"bufio"
	"context"
	"net"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/redis/go-redis/v9"
)

// demoRedis answers GET with the given reply and everything else with OK.
func demoRedis(get string) *redis.Options {
	return &redis.Options{
		Protocol: 2, DisableIdentity: true, MaxRetries: -1,
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			c, s := net.Pipe()
			go func() {
				r := bufio.NewReader(s)
				for {
					l, err := r.ReadString('\\n')
					if err != nil {
						return
					}
					n, _ := strconv.Atoi(strings.TrimSpace(l[1:]))
					var args []string
					for i := 0; i < n; i++ {
						_, _ = r.ReadString('\\n')
						a, _ := r.ReadString('\\n')
						args = append(args, strings.TrimSpace(a))
					}
					a := "+OK\\r\\n"
					switch strings.ToLower(args[0]) {
					case "get":
						a = get
					case "hello":
						a = "-ERR unknown command\\r\\n"
					}
					if _, err = s.Write([]byte(a)); err != nil {
						return
					}
				}
			}()
			return c, nil
		},
	}
}

var _ = demoRedis
var _ = time.Hour

func TestSeedDemo(t *testing.T) {
'''
def T(b): return HEAD+b+"\n}\n"
SEEDS=[
dict(id="c35-redis-miss", prop="C35", pkg="./cache", edits=[("cache/redis.go",'''		if !errors.Is(err, redis.Nil) {
			return false, errors.Wrap(err, "error while obtaining from cache")
		}
		return false, nil''','''		if !errors.Is(err, redis.Nil) && c.ctx.Err() != nil {
			return false, errors.Wrap(err, "error while obtaining from cache")
		}
		return false, nil''')],
 demo=T('''	c := redisCache{client: redis.NewClient(demoRedis("-ERR broken\\r\\n")), ctx: context.Background()}
	var v string
	if ok, err := c.Get("k", &v); ok || err == nil {
		t.Fatal(ok, err)
	}'''), needs="a redis server that answers with an error", breaks="a failing cache looks like an empty one"),
dict(id="c35-key-case", prop="C35", pkg="./cache", edits=[("cache/cache.go",'''	entryV, ok := c.c.Get(key)''','''	entryV, ok := c.c.Get(strings.ToLower(key))'''),("cache/cache.go",'''c.c.SetWithTTL(key, data, expiration)''','''c.c.SetWithTTL(strings.ToLower(key), data, expiration)'''),("cache/cache.go",'''	"log"
''','''	"log"
	"strings"
''')],
 demo=T('''	_ = Set("kA", "upper", time.Hour)
	_ = Set("ka", "lower", time.Hour)
	var v string
	if ok, err := Get("kA", &v); !ok || err != nil || v != "upper" {
		t.Fatal(ok, err, v)
	}'''), needs="two keys that differ only in upper and lower case, such as base64 encoded entity IDs", breaks="the entry of another key is served"),
dict(id="c35-redis-before-ping", prop="C35", pkg="./cache", edits=[("cache/redis.go",'''	if err := rdb.Ping(context.Background()).Err(); err != nil {
		return errors.Wrap(err, "could not connect to redis cache")
	}
	SetCache(
		redisCache{
			client: rdb,
			ctx:    context.Background(),
		},
	)
	return nil''','''	c := redisCache{
		client: rdb,
		ctx:    context.Background(),
	}
	SetCache(c)
	if err := rdb.Ping(c.ctx).Err(); err != nil {
		return errors.Wrap(err, "could not connect to redis cache")
	}
	return nil''')],
 demo=T('''	o := demoRedis("")
	o.Dialer = func(context.Context, string, string) (net.Conn, error) { return nil, net.ErrClosed }
	if UseRedisCache(o) == nil {
		t.Fatal("connected")
	}
	if err := Set("k", "v", time.Hour); err != nil {
		t.Fatal("the cache was replaced", err)
	}'''), needs="a redis server that is down when the service starts", breaks="the unusable server replaces the working cache"),
dict(id="c35-undecodable", prop="C35", pkg="./cache", edits=[("cache/cache.go",'''	return true, msgpack.Unmarshal(entry, target)''','''	if err := msgpack.Unmarshal(entry, target); err != nil {
		internal.Log(err)
		return len(entry) > 0, nil
	}
	return true, nil''')],
 demo=T('''	_ = Set("k", "text", time.Hour)
	var v map[string]int
	if ok, err := Get("k", &v); ok && err == nil {
		t.Fatal(ok, err, v)
	}'''), needs="an entry that cannot be decoded into the target", breaks="a half-decoded value counts as found"),
]
