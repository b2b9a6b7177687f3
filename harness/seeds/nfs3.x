/* after RFC 1813 */
const NFS3_FHSIZE = 64;
const NFS3_COOKIEVERFSIZE = 8;
const NFS3_CREATEVERFSIZE = 8;
const NFS3_WRITEVERFSIZE = 8;
const ACCESS3_READ = 0x0001;
const ACCESS3_LOOKUP = 0x0002;
typedef unsigned hyper uint64;
typedef hyper int64;
typedef unsigned int uint32;
typedef string filename3<>;
typedef string nfspath3<>;
typedef uint64 fileid3;
typedef uint64 cookie3;
typedef opaque cookieverf3[NFS3_COOKIEVERFSIZE];
typedef opaque createverf3[NFS3_CREATEVERFSIZE];
typedef opaque writeverf3[NFS3_WRITEVERFSIZE];
typedef uint32 uid3;
typedef uint32 gid3;
typedef uint64 size3;
typedef uint64 offset3;
typedef uint32 mode3;
typedef uint32 count3;
enum nfsstat3 {
	NFS3_OK = 0, NFS3ERR_PERM = 1, NFS3ERR_NOENT = 2, NFS3ERR_IO = 5, NFS3ERR_ACCES = 13,
	NFS3ERR_BADHANDLE = 10001, NFS3ERR_NOT_SYNC = 10002, NFS3ERR_JUKEBOX = 10008
};
enum ftype3 { NF3REG = 1, NF3DIR = 2, NF3BLK = 3, NF3CHR = 4, NF3LNK = 5, NF3SOCK = 6, NF3FIFO = 7 };
struct specdata3 { uint32 specdata1; uint32 specdata2; };
struct nfs_fh3 { opaque data<NFS3_FHSIZE>; };
struct nfstime3 { uint32 seconds; uint32 nseconds; };
struct fattr3 {
	ftype3 type;
	mode3 mode;
	uint32 nlink;
	uid3 uid;
	gid3 gid;
	size3 size;
	size3 used;
	specdata3 rdev;
	uint64 fsid;
	fileid3 fileid;
	nfstime3 atime;
	nfstime3 mtime;
	nfstime3 ctime;
};
union post_op_attr switch (bool attributes_follow) {
	case TRUE: fattr3 attributes;
	case FALSE: void;
};
struct wcc_attr { size3 size; nfstime3 mtime; nfstime3 ctime; };
union pre_op_attr switch (bool attributes_follow) {
	case TRUE: wcc_attr attributes;
	case FALSE: void;
};
struct wcc_data { pre_op_attr before; post_op_attr after; };
union post_op_fh3 switch (bool handle_follows) {
	case TRUE: nfs_fh3 handle;
	case FALSE: void;
};
enum time_how { DONT_CHANGE = 0, SET_TO_SERVER_TIME = 1, SET_TO_CLIENT_TIME = 2 };
union set_mode3 switch (bool set_it) { case TRUE: mode3 mode; default: void; };
union set_size3 switch (bool set_it) { case TRUE: size3 size; default: void; };
union set_atime switch (time_how set_it) {
	case SET_TO_CLIENT_TIME: nfstime3 atime;
	default: void;
};
struct sattr3 { set_mode3 mode; set_size3 size; set_atime atime; };
struct diropargs3 { nfs_fh3 dir; filename3 name; };
struct LOOKUP3resok { nfs_fh3 object; post_op_attr obj_attributes; post_op_attr dir_attributes; };
struct LOOKUP3resfail { post_op_attr dir_attributes; };
union LOOKUP3res switch (nfsstat3 status) {
	case NFS3_OK: LOOKUP3resok resok;
	default: LOOKUP3resfail resfail;
};
struct READ3args { nfs_fh3 file; offset3 offset; count3 count; };
struct READ3resok { post_op_attr file_attributes; count3 count; bool eof; opaque data<>; };
struct READ3resfail { post_op_attr file_attributes; };
union READ3res switch (nfsstat3 status) {
	case NFS3_OK: READ3resok resok;
	default: READ3resfail resfail;
};
enum stable_how { UNSTABLE = 0, DATA_SYNC = 1, FILE_SYNC = 2 };
struct WRITE3args { nfs_fh3 file; offset3 offset; count3 count; stable_how stable; opaque data<>; };
enum createmode3 { UNCHECKED = 0, GUARDED = 1, EXCLUSIVE = 2 };
union createhow3 switch (createmode3 mode) {
	case UNCHECKED:
	case GUARDED: sattr3 obj_attributes;
	case EXCLUSIVE: createverf3 verf;
};
struct CREATE3args { diropargs3 where; createhow3 how; };
struct entry3 { fileid3 fileid; filename3 name; cookie3 cookie; entry3 *nextentry; };
struct dirlist3 { entry3 *entries; bool eof; };
struct entryplus3 {
	fileid3 fileid; filename3 name; cookie3 cookie;
	post_op_attr name_attributes; post_op_fh3 name_handle;
	entryplus3 *nextentry;
};
struct dirlistplus3 { entryplus3 *entries; bool eof; };
struct READDIRPLUS3resok { post_op_attr dir_attributes; cookieverf3 cookieverf; dirlistplus3 reply; };
