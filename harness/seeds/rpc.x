/* after RFC 5531 and RFC 1833 */
const AUTH_MAX = 400;
const PMAP_PORT = 111;

enum auth_flavor {
	AUTH_NONE = 0,
	AUTH_SYS = 1,
	AUTH_SHORT = 2,
	AUTH_DH = 3,
	RPCSEC_GSS = 6
};
struct opaque_auth {
	auth_flavor flavor;
	opaque body<AUTH_MAX>;
};
enum msg_type { CALL = 0, REPLY = 1 };
enum reply_stat { MSG_ACCEPTED = 0, MSG_DENIED = 1 };
enum accept_stat {
	SUCCESS       = 0, // executed
	PROG_UNAVAIL  = 1,
	PROG_MISMATCH = 2,
	PROC_UNAVAIL  = 3,
	GARBAGE_ARGS  = 4,
	SYSTEM_ERR    = 5
};
enum reject_stat { RPC_MISMATCH = 0, AUTH_ERROR = 1 };
enum auth_stat {
	AUTH_OK = 0, AUTH_BADCRED = 1, AUTH_REJECTEDCRED = 2, AUTH_BADVERF = 3,
	AUTH_REJECTEDVERF = 4, AUTH_TOOWEAK = 5, AUTH_INVALIDRESP = 6, AUTH_FAILED = 7
};
struct mismatch_range { unsigned int low; unsigned int high; };
union rejected_reply switch (reject_stat stat) {
	case RPC_MISMATCH:
		mismatch_range mismatch_info;
	case AUTH_ERROR:
		auth_stat auth_error;
};
union accepted_body switch (accept_stat stat) {
	case SUCCESS:
		payload results;
	case PROG_MISMATCH:
		mismatch_range mismatch_info;
	default:
		void;
};
typedef opaque payload<>;
struct accepted_reply { opaque_auth verf; accepted_body reply_data; };
union reply_body switch (reply_stat stat) {
	case MSG_ACCEPTED:
		accepted_reply areply;
	case MSG_DENIED:
		rejected_reply rreply;
};
struct call_body {
	unsigned int rpcvers;
	unsigned int prog;
	unsigned int vers;
	unsigned int proc;
	opaque_auth cred;
	opaque_auth verf;
};
union rpc_body switch (msg_type mtype) {
	case CALL: call_body cbody;
	case REPLY: reply_body rbody;
};
struct rpc_msg { unsigned int xid; rpc_body body; };
typedef unsigned int gid;
struct authsys_parms {
	unsigned int stamp;
	string machinename<255>;
	unsigned int uid;
	unsigned int gid;
	gid gids<16>;
};
struct mapping { unsigned int prog; unsigned int vers; unsigned int prot; unsigned int port; };
struct pmaplist { mapping map; pmaplist *next; };
struct rpcb { unsigned int r_prog; unsigned int r_vers; string r_netid<>; string r_addr<>; string r_owner<>; };
struct rpcblist { rpcb rpcb_map; rpcblist *rpcb_next; };
