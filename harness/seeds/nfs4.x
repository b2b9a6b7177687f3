/* after RFC 7531 */
typedef int             int32_t;
typedef unsigned int    uint32_t;
typedef hyper           int64_t;
typedef unsigned hyper  uint64_t;
const NFS4_FHSIZE               = 128;
const NFS4_VERIFIER_SIZE        = 8;
const NFS4_OTHER_SIZE           = 12;
const NFS4_OPAQUE_LIMIT         = 1024;
const NFS4_INT32_MAX            = 0x7fffffff;
const NFS4_UINT32_MAX           = 0xffffffff;
enum nfs_ftype4 {
	NF4REG = 1, NF4DIR = 2, NF4BLK = 3, NF4CHR = 4, NF4LNK = 5, NF4SOCK = 6, NF4FIFO = 7,
	NF4ATTRDIR = 8, NF4NAMEDATTR = 9
};
enum nfsstat4 {
	NFS4_OK = 0, /* everything is okay */
	NFS4ERR_PERM = 1,
	NFS4ERR_NOENT = 2,
	NFS4ERR_LOCKED = 10012,
	NFS4ERR_DENIED = 10010,
	NFS4ERR_CLID_INUSE = 10017,
	NFS4ERR_OP_ILLEGAL = 10044
};
typedef uint32_t        bitmap_inner;
typedef bitmap_inner    bitmap4<>;
typedef uint64_t        offset4;
typedef uint32_t        count4;
typedef uint64_t        length4;
typedef uint64_t        clientid4;
typedef uint32_t        seqid4;
typedef opaque          utf8string<>;
typedef utf8string      utf8str_cs;
typedef utf8str_cs      component4;
typedef component4      pathname4<>;
typedef opaque          linktext4<>;
typedef uint32_t        mode4;
typedef uint64_t        changeid4;
typedef opaque          verifier4[NFS4_VERIFIER_SIZE];
typedef opaque          nfs_fh4<NFS4_FHSIZE>;
typedef opaque          attrlist4<>;
struct nfstime4 { int64_t seconds; uint32_t nseconds; };
enum time_how4 { SET_TO_SERVER_TIME4 = 0, SET_TO_CLIENT_TIME4 = 1 };
union settime4 switch (time_how4 set_it) {
	case SET_TO_CLIENT_TIME4: nfstime4 time;
	default: void;
};
struct fattr4 { bitmap4 attrmask; attrlist4 attr_vals; };
struct change_info4 { bool atomic; changeid4 before; changeid4 after; };
struct stateid4 { uint32_t seqid; opaque other[NFS4_OTHER_SIZE]; };
struct nfs_client_id4 { verifier4 verifier; opaque id<NFS4_OPAQUE_LIMIT>; };
struct open_owner4 { clientid4 clientid; opaque owner<NFS4_OPAQUE_LIMIT>; };
struct lock_owner4 { clientid4 clientid; opaque owner<NFS4_OPAQUE_LIMIT>; };
struct clientaddr4 { string r_netid<>; string r_addr<>; };
struct cb_client4 { uint32_t cb_program; clientaddr4 cb_location; };
enum nfs_lock_type4 { READ_LT = 1, WRITE_LT = 2, READW_LT = 3, WRITEW_LT = 4 };
struct LOCK4denied { offset4 offset; length4 length; nfs_lock_type4 locktype; lock_owner4 owner; };
struct LOCK4resok { stateid4 lock_stateid; };
union LOCK4res switch (nfsstat4 status) {
	case NFS4_OK: LOCK4resok resok4;
	case NFS4ERR_DENIED: LOCK4denied denied;
	default: void;
};
enum createmode4 { UNCHECKED4 = 0, GUARDED4 = 1, EXCLUSIVE4 = 2 };
union createhow4 switch (createmode4 mode) {
	case UNCHECKED4:
	case GUARDED4: fattr4 createattrs;
	case EXCLUSIVE4: verifier4 createverf;
};
enum opentype4 { OPEN4_NOCREATE = 0, OPEN4_CREATE = 1 };
union openflag4 switch (opentype4 opentype) {
	case OPEN4_CREATE: createhow4 how;
	default: void;
};
enum open_claim_type4 { CLAIM_NULL = 0, CLAIM_PREVIOUS = 1, CLAIM_DELEGATE_CUR = 2, CLAIM_DELEGATE_PREV = 3 };
enum open_delegation_type4 { OPEN_DELEGATE_NONE = 0, OPEN_DELEGATE_READ = 1, OPEN_DELEGATE_WRITE = 2 };
struct open_claim_delegate_cur4 { stateid4 delegate_stateid; component4 file; };
union open_claim4 switch (open_claim_type4 claim) {
	case CLAIM_NULL: component4 file;
	case CLAIM_PREVIOUS: open_delegation_type4 delegate_type;
	case CLAIM_DELEGATE_CUR: open_claim_delegate_cur4 delegate_cur_info;
	case CLAIM_DELEGATE_PREV: component4 file_delegate_prev;
};
struct OPEN4args {
	seqid4 seqid; uint32_t share_access; uint32_t share_deny; open_owner4 owner; openflag4 openhow; open_claim4 claim;
};
struct SETCLIENTID4args { nfs_client_id4 client; cb_client4 callback; uint32_t callback_ident; };
struct SETCLIENTID4resok { clientid4 clientid; verifier4 setclientid_confirm; };
union SETCLIENTID4res switch (nfsstat4 status) {
	case NFS4_OK: SETCLIENTID4resok resok4;
	case NFS4ERR_CLID_INUSE: clientaddr4 client_using;
	default: void;
};
struct GETATTR4resok { fattr4 obj_attributes; };
union GETATTR4res switch (nfsstat4 status) {
	case NFS4_OK: GETATTR4resok resok4;
	default: void;
};
struct entry4 { uint64_t cookie; component4 name; fattr4 attrs; entry4 *nextentry; };
struct dirlist4 { entry4 *entries; bool eof; };
struct PUTFH4args { nfs_fh4 object; };
struct PUTFH4res { nfsstat4 status; };
struct LOOKUP4args { component4 objname; };
struct LOOKUP4res { nfsstat4 status; };
enum nfs_opnum4 {
	OP_GETATTR = 9, OP_LOCK = 12, OP_LOOKUP = 15, OP_OPEN = 18, OP_PUTFH = 22, OP_PUTROOTFH = 24,
	OP_SETCLIENTID = 35, OP_ILLEGAL = 10044
};
struct GETATTR4args { bitmap4 attr_request; };
union nfs_argop4 switch (nfs_opnum4 argop) {
	case OP_GETATTR: GETATTR4args opgetattr;
	case OP_LOOKUP: LOOKUP4args oplookup;
	case OP_OPEN: OPEN4args opopen;
	case OP_PUTFH: PUTFH4args opputfh;
	case OP_PUTROOTFH: void;
	case OP_SETCLIENTID: SETCLIENTID4args opsetclientid;
	case OP_ILLEGAL: void;
};
union nfs_resop4 switch (nfs_opnum4 resop) {
	case OP_GETATTR: GETATTR4res opgetattr;
	case OP_LOCK: LOCK4res oplock;
	case OP_LOOKUP: LOOKUP4res oplookup;
	case OP_PUTFH: PUTFH4res opputfh;
	case OP_SETCLIENTID: SETCLIENTID4res opsetclientid;
	default: void;
};
struct COMPOUND4args { utf8str_cs tag; uint32_t minorversion; nfs_argop4 argarray<>; };
struct COMPOUND4res { nfsstat4 status; utf8str_cs tag; nfs_resop4 resarray<>; };
