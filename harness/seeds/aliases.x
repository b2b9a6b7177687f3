/* the usual integer aliases of RFC specifications */
typedef int             int32_t;
typedef unsigned int    uint32_t;
typedef hyper           int64_t;
typedef unsigned hyper  uint64_t;
typedef uint32_t  count4;
typedef uint64_t  offset4;
typedef opaque    verifier4[8];
typedef string    utf8str<255>;
struct holder {
	int32_t   a;
	uint32_t  b;
	int64_t   c;
	uint64_t  d;
	count4    e;
	offset4   f[2];
	verifier4 g;
	utf8str   h;
	int32_t   *i;
};
