#include "runtime.h"
// Typeid redirect table
static unsigned __nullcTR[115];
// Function pointer table
static __nullcFunctionArray* __nullcFM;
// Function pointer redirect table
static unsigned __nullcFR[101];

// Type prototypes
struct auto_ref;
struct auto__;
struct __FinalizeProxy;
struct __function__;
struct char__;
struct int__;
struct short__;
struct float__;
struct double__;
struct auto_ref__;

// Type definitions
#pragma pack(push, 4)
struct __FinalizeProxy
{
};
struct __typeProxy_void_ref_int_{};
struct __typeProxy_void_ref_int_char___{};
struct __typeProxy_int_ref_char___char___{};
struct __typeProxy_char___ref_char___char___{};
struct __typeProxy_char___ref_char___ref_char___{};
struct __typeProxy_bool_ref_bool_{};
struct __typeProxy_char_ref_char_{};
struct __typeProxy_short_ref_short_{};
struct __typeProxy_int_ref_int_{};
struct __typeProxy_long_ref_long_{};
struct __typeProxy_float_ref_float_{};
struct __typeProxy_double_ref_double_{};
struct __typeProxy_void_ref_bool_{};
struct __typeProxy_void_ref_char_{};
struct __typeProxy_void_ref_short_{};
struct __typeProxy_void_ref_long_{};
struct __typeProxy_void_ref_float_{};
struct __typeProxy_void_ref_double_{};
struct __typeProxy_int_ref_char_{};
struct __typeProxy_int_ref_short_{};
struct __typeProxy_long_ref_int_{};
struct __typeProxy_short_ref_char___{};
struct __typeProxy_char___ref__{};
struct __typeProxy_int_ref_char___{};
struct __typeProxy_long_ref_char___{};
struct __typeProxy_float_ref_char___{};
struct __typeProxy_char___ref_int_bool_{};
struct __typeProxy_double_ref_char___{};
struct __typeProxy_void_ref_ref_int_int_{};
struct __typeProxy_int___ref_int_int_int_{};
struct __typeProxy_auto_ref_ref_auto_ref_{};
struct __typeProxy_void_ref_auto___ref_auto___{};
struct __typeProxy_auto___ref_auto___{};
struct __typeProxy_auto_ref_ref_auto_ref_auto_ref_{};
struct __typeProxy_void_ref_auto_ref_auto_ref_{};
struct __typeProxy_int_ref_auto_ref_auto_ref_{};
struct __typeProxy_void_ref_auto___auto___{};
struct __typeProxy_void_ref__{};
struct __typeProxy_void_ref___ref_auto_ref___function___ref_{};
struct __typeProxy_char___ref_ref_char___ref_int___{};
struct __typeProxy_short___ref_ref_short___ref_int___{};
struct __typeProxy_float___ref_ref_float___ref_double___{};
struct __typeProxy_typeid_ref_auto_ref_{};
struct __typeProxy_int_ref__{};
struct __typeProxy_int_ref_typeid_typeid_{};
struct __typeProxy_bool_ref_auto_ref_auto_ref_{};
struct __typeProxy_int_ref_auto_ref_{};
struct __typeProxy_int_ref_void_ref_int__void_ref_int__{};
struct __typeProxy_int_ref_auto___auto___{};
struct __typeProxy_auto___ref_ref_auto___ref_auto_ref_{};
struct __typeProxy_auto_ref_ref_auto_ref_auto___ref_{};
struct __typeProxy_auto_ref_ref_auto___ref_int_{};
struct __typeProxy_void_ref_auto___ref_typeid_int_{};
struct __typeProxy_auto___ref_typeid_int_{};
struct __typeProxy_void_ref_auto_ref_int_{};
struct __typeProxy_void_ref_auto___ref_int_{};
struct __typeProxy_void_ref_auto_ref_{};
struct __typeProxy_auto_ref___ref__{};
struct __typeProxy_bool_ref_auto_ref_typeid_{};
struct __typeProxy_void_ref_ref_void_ref_typeid_{};
struct __typeProxy_void_ref_void_ref_ref_void_ref_int_int_{};
struct __typeProxy_bool_ref__{};
struct __typeProxy_void_ref_int_ref_int_{};
struct __typeProxy_int_ref_int_ref_{};
struct __typeProxy_int_ref_int_ref_int__int_{};
struct __typeProxy_int_ref_char___int_{};
struct __typeProxy_void_ref_char___{};
struct __typeProxy_int_ref_int_int_{};
#pragma pack(pop)

// Function prototypes
void assert_void_ref_int_(int val, void* __context);
void assert_void_ref_int_char___(int val, NULLCArray< char > message, void* __context);
int __operatorEqual_int_ref_char___char___(NULLCArray< char > a, NULLCArray< char > b, void* __context);
int __operatorNEqual_int_ref_char___char___(NULLCArray< char > a, NULLCArray< char > b, void* __context);
NULLCArray< char > __operatorAdd_char___ref_char___char___(NULLCArray< char > a, NULLCArray< char > b, void* __context);
NULLCArray< char > __operatorAddSet_char___ref_char___ref_char___(NULLCArray< char >* a, NULLCArray< char > b, void* __context);
bool bool_bool_ref_bool_(bool a, void* __context);
char char_char_ref_char_(char a, void* __context);
short short_short_ref_short_(short a, void* __context);
int int_int_ref_int_(int a, void* __context);
long long long_long_ref_long_(long long a, void* __context);
float float_float_ref_float_(float a, void* __context);
double double_double_ref_double_(double a, void* __context);
void bool__bool_void_ref_bool_(bool a, bool* __context);
void char__char_void_ref_char_(char a, char* __context);
void short__short_void_ref_short_(short a, short* __context);
void int__int_void_ref_int_(int a, int* __context);
void long__long_void_ref_long_(long long a, long long* __context);
void float__float_void_ref_float_(float a, float* __context);
void double__double_void_ref_double_(double a, double* __context);
int as_unsigned_int_ref_char_(char a, void* __context);
int as_unsigned_int_ref_short_(short a, void* __context);
long long as_unsigned_long_ref_int_(int a, void* __context);
short short_short_ref_char___(NULLCArray< char > str, void* __context);
NULLCArray< char > short__str_char___ref__(short* __context);
int int_int_ref_char___(NULLCArray< char > str, void* __context);
NULLCArray< char > int__str_char___ref__(int* __context);
long long long_long_ref_char___(NULLCArray< char > str, void* __context);
NULLCArray< char > long__str_char___ref__(long long* __context);
float float_float_ref_char___(NULLCArray< char > str, void* __context);
NULLCArray< char > float__str_char___ref_int_bool_(int precision, bool showExponent, float* __context);
double double_double_ref_char___(NULLCArray< char > str, void* __context);
NULLCArray< char > double__str_char___ref_int_bool_(int precision, bool showExponent, double* __context);
void* __newS_void_ref_ref_int_int_(int size, int type, void* __context);
NULLCArray< int > __newA_int___ref_int_int_int_(int size, int count, int type, void* __context);
NULLCRef duplicate_auto_ref_ref_auto_ref_(NULLCRef obj, void* __context);
void __duplicate_array_void_ref_auto___ref_auto___(NULLCAutoArray* dst, NULLCAutoArray src, void* __context);
NULLCAutoArray duplicate_auto___ref_auto___(NULLCAutoArray arr, void* __context);
NULLCRef replace_auto_ref_ref_auto_ref_auto_ref_(NULLCRef l, NULLCRef r, void* __context);
void swap_void_ref_auto_ref_auto_ref_(NULLCRef l, NULLCRef r, void* __context);
int equal_int_ref_auto_ref_auto_ref_(NULLCRef l, NULLCRef r, void* __context);
void assign_void_ref_auto_ref_auto_ref_(NULLCRef l, NULLCRef r, void* __context);
void array_copy_void_ref_auto___auto___(NULLCAutoArray l, NULLCAutoArray r, void* __context);
NULLCFuncPtr<__typeProxy_void_ref__> __redirect_void_ref___ref_auto_ref___function___ref_(NULLCRef r, NULLCArray< __function >* f, void* __context);
NULLCFuncPtr<__typeProxy_void_ref__> __redirect_ptr_void_ref___ref_auto_ref___function___ref_(NULLCRef r, NULLCArray< __function >* f, void* __context);
NULLCArray< char >* __aassign_itoc_char___ref_ref_char___ref_int___(NULLCArray< char >* dst, NULLCArray< int > src, void* __context);
NULLCArray< short >* __aassign_itos_short___ref_ref_short___ref_int___(NULLCArray< short >* dst, NULLCArray< int > src, void* __context);
NULLCArray< float >* __aassign_dtof_float___ref_ref_float___ref_double___(NULLCArray< float >* dst, NULLCArray< double > src, void* __context);
unsigned typeid_typeid_ref_auto_ref_(NULLCRef type, void* __context);
int typeid__size__int_ref___(unsigned* __context);
int __operatorEqual_int_ref_typeid_typeid_(unsigned a, unsigned b, void* __context);
int __operatorNEqual_int_ref_typeid_typeid_(unsigned a, unsigned b, void* __context);
int __rcomp_int_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
int __rncomp_int_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
bool __operatorLess_bool_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
bool __operatorLEqual_bool_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
bool __operatorGreater_bool_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
bool __operatorGEqual_bool_ref_auto_ref_auto_ref_(NULLCRef a, NULLCRef b, void* __context);
int hash_value_int_ref_auto_ref_(NULLCRef x, void* __context);
int __pcomp_int_ref_void_ref_int__void_ref_int__(NULLCFuncPtr<__typeProxy_void_ref_int_> a, NULLCFuncPtr<__typeProxy_void_ref_int_> b, void* __context);
int __pncomp_int_ref_void_ref_int__void_ref_int__(NULLCFuncPtr<__typeProxy_void_ref_int_> a, NULLCFuncPtr<__typeProxy_void_ref_int_> b, void* __context);
int __acomp_int_ref_auto___auto___(NULLCAutoArray a, NULLCAutoArray b, void* __context);
int __ancomp_int_ref_auto___auto___(NULLCAutoArray a, NULLCAutoArray b, void* __context);
int __typeCount_int_ref__(void* __context);
NULLCAutoArray* __operatorSet_auto___ref_ref_auto___ref_auto_ref_(NULLCAutoArray* l, NULLCRef r, void* __context);
NULLCRef __aaassignrev_auto_ref_ref_auto_ref_auto___ref_(NULLCRef l, NULLCAutoArray* r, void* __context);
NULLCRef __operatorIndex_auto_ref_ref_auto___ref_int_(NULLCAutoArray* l, int index, void* __context);
int isStackPointer_int_ref_auto_ref_(NULLCRef x, void* __context);
void auto_array_impl_void_ref_auto___ref_typeid_int_(NULLCAutoArray* arr, unsigned type, int count, void* __context);
NULLCAutoArray auto_array_auto___ref_typeid_int_(unsigned type, int count, void* __context);
void auto____set_void_ref_auto_ref_int_(NULLCRef x, int pos, NULLCAutoArray* __context);
void __force_size_void_ref_auto___ref_int_(NULLCAutoArray* s, int size, void* __context);
int isCoroutineReset_int_ref_auto_ref_(NULLCRef f, void* __context);
void __assertCoroutine_void_ref_auto_ref_(NULLCRef f, void* __context);
NULLCArray< NULLCRef > __getFinalizeList_auto_ref___ref__(void* __context);
void __FinalizeProxy__finalize_void_ref__(__FinalizeProxy* __context);
void __finalizeObjects_void_ref__(void* __context);
bool is_derived_from_bool_ref_auto_ref_typeid_(NULLCRef derived, unsigned base, void* __context);
void* __assert_derived_from_void_ref_ref_void_ref_typeid_(void* derived, unsigned base, void* __context);
void __closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_(void** l, void* v, int offset, int size, void* __context);
int float__str_610894668_precision__int_ref___(void* __context);
bool float__str_610894668_showExponent__bool_ref___(void* __context);
int double__str_610894668_precision__int_ref___(void* __context);
bool double__str_610894668_showExponent__bool_ref___(void* __context);
void hset_void_ref_int_ref_int_(int* p, int v, void* __context);
int hget_int_ref_int_ref_(int* p, void* __context);
int hcall_int_ref_int_ref_int__int_(NULLCFuncPtr<__typeProxy_int_ref_int_> f, int v, void* __context);
int hname_int_ref_char___int_(NULLCArray< char > name, int v, void* __context);
void t_void_ref_int_(int v, void* __context);
void tl_void_ref_long_(long long v, void* __context);
void td_void_ref_double_(double v, void* __context);
void ts_void_ref_char___(NULLCArray< char > v, void* __context);
int te_int_ref_int_int_(int id, int v, void* __context);
int hostfail_int_ref_int_(int v, void* __context);
int hide_int_ref_int_(int v, void* __context);
long long hidel_long_ref_long_(long long v, void* __context);
double hided_double_ref_double_(double v, void* __context);

// Global variables
extern NULLCArray< __function > __vtbl3761170085finalize;

// Function definitions

// Module initializers

// Global code
int __init_mc_nc()
{
	static int moduleInitialized = 0;
	if(moduleInitialized++)
		return 0;
	static int pointerSizeTest[sizeof(void*) == 8 ? 1 : -1];
	__nullcFM = __nullcGetFunctionTable();
	int __local = 0;
	__nullcRegisterBase(&__local);
	__nullcInitBaseModule();

	// Initialize modules

	// Register types
	__nullcTR[0] = __nullcRegisterType(2090838615u, "void", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
	__nullcTR[1] = __nullcRegisterType(2090120081u, "bool", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
	__nullcTR[2] = __nullcRegisterType(2090147939u, "char", 1, __nullcTR[0], 0, NULLC_NONE, 0, 0);
	__nullcTR[3] = __nullcRegisterType(274395349u, "short", 2, __nullcTR[0], 0, NULLC_NONE, 2, 0);
	__nullcTR[4] = __nullcRegisterType(193495088u, "int", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
	__nullcTR[5] = __nullcRegisterType(2090479413u, "long", 8, __nullcTR[0], 0, NULLC_NONE, 8, 0);
	__nullcTR[6] = __nullcRegisterType(259121563u, "float", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
	__nullcTR[7] = __nullcRegisterType(4181547808u, "double", 8, __nullcTR[0], 0, NULLC_NONE, 8, 0);
	__nullcTR[8] = __nullcRegisterType(524429492u, "typeid", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
	__nullcTR[9] = __nullcRegisterType(1211668521u, "__function", 4, __nullcTR[0], 0, NULLC_NONE, 4, 0);
	__nullcTR[10] = __nullcRegisterType(84517172u, "__nullptr", 8, __nullcTR[0], 0, NULLC_NONE, 4, 0);
	__nullcTR[11] = 0; // generic type 'generic'
	__nullcTR[12] = __nullcRegisterType(2090090846u, "auto", 0, __nullcTR[0], 0, NULLC_NONE, 0, 0);
	__nullcTR[13] = __nullcRegisterType(1166360283u, "auto ref", 12, __nullcTR[0], 2, NULLC_CLASS, 4, 0);
	__nullcTR[14] = __nullcRegisterType(3198057556u, "void ref", 8, __nullcTR[0], 1, NULLC_POINTER, 4, 0);
	__nullcTR[15] = __nullcRegisterType(4071234806u, "auto[]", 16, __nullcTR[0], 3, NULLC_CLASS, 4, 0);
	__nullcTR[16] = __nullcRegisterType(2002985239u, "__FinalizeProxy", 0, __nullcTR[0], 0, NULLC_CLASS, 0, NULLC_TYPE_FLAG_HAS_FINALIZER);
	__nullcTR[17] = __nullcRegisterType(952062593u, "__function[]", 12, __nullcTR[9], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[18] = __nullcRegisterType(2550963152u, "void ref(int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[19] = __nullcRegisterType(4133409083u, "char[]", 12, __nullcTR[2], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[20] = __nullcRegisterType(3878423506u, "void ref(int,char[])", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[21] = __nullcRegisterType(1362586038u, "int ref(char[],char[])", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[22] = __nullcRegisterType(3953727713u, "char[] ref(char[],char[])", 12, __nullcTR[19], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[23] = __nullcRegisterType(3214832952u, "char[] ref", 8, __nullcTR[19], 1, NULLC_POINTER, 4, 0);
	__nullcTR[24] = __nullcRegisterType(90259294u, "char[] ref(char[] ref,char[])", 12, __nullcTR[19], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[25] = __nullcRegisterType(1219970027u, "bool ref(bool)", 12, __nullcTR[1], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[26] = __nullcRegisterType(3410585167u, "char ref(char)", 12, __nullcTR[2], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[27] = __nullcRegisterType(1890834067u, "short ref(short)", 12, __nullcTR[3], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[28] = __nullcRegisterType(2745832905u, "int ref(int)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[29] = __nullcRegisterType(3458960563u, "long ref(long)", 12, __nullcTR[5], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[30] = __nullcRegisterType(4223928607u, "float ref(float)", 12, __nullcTR[6], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[31] = __nullcRegisterType(4226161577u, "double ref(double)", 12, __nullcTR[7], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[32] = __nullcRegisterType(2569136689u, "void ref(bool)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[33] = __nullcRegisterType(1477022350u, "bool ref", 8, __nullcTR[1], 1, NULLC_POINTER, 4, 0);
	__nullcTR[34] = __nullcRegisterType(2570056003u, "void ref(char)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[35] = __nullcRegisterType(154671200u, "char ref", 8, __nullcTR[2], 1, NULLC_POINTER, 4, 0);
	__nullcTR[36] = __nullcRegisterType(3834141397u, "void ref(short)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[37] = __nullcRegisterType(3010777554u, "short ref", 8, __nullcTR[3], 1, NULLC_POINTER, 4, 0);
	__nullcTR[38] = __nullcRegisterType(2671810221u, "int ref", 8, __nullcTR[4], 1, NULLC_POINTER, 4, 0);
	__nullcTR[39] = __nullcRegisterType(2580994645u, "void ref(long)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[40] = __nullcRegisterType(2414624818u, "long ref", 8, __nullcTR[5], 1, NULLC_POINTER, 4, 0);
	__nullcTR[41] = __nullcRegisterType(3330106459u, "void ref(float)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[42] = __nullcRegisterType(1384297880u, "float ref", 8, __nullcTR[6], 1, NULLC_POINTER, 4, 0);
	__nullcTR[43] = __nullcRegisterType(60945760u, "void ref(double)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[44] = __nullcRegisterType(3234425245u, "double ref", 8, __nullcTR[7], 1, NULLC_POINTER, 4, 0);
	__nullcTR[45] = __nullcRegisterType(410823260u, "int ref(char)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[46] = __nullcRegisterType(1298937614u, "int ref(short)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[47] = __nullcRegisterType(625310318u, "long ref(int)", 12, __nullcTR[5], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[48] = __nullcRegisterType(3062702681u, "short ref(char[])", 12, __nullcTR[3], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[49] = __nullcRegisterType(554739849u, "char[] ref()", 12, __nullcTR[19], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[50] = __nullcRegisterType(709988916u, "int ref(char[])", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[51] = __nullcRegisterType(1094512825u, "long ref(char[])", 12, __nullcTR[5], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[52] = __nullcRegisterType(2198694943u, "float ref(char[])", 12, __nullcTR[6], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[53] = __nullcRegisterType(610894668u, "char[] ref(int,bool)", 12, __nullcTR[19], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[54] = __nullcRegisterType(2637583652u, "double ref(char[])", 12, __nullcTR[7], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[55] = __nullcRegisterType(3461032260u, "void ref ref(int,int)", 12, __nullcTR[14], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[56] = __nullcRegisterType(262756424u, "int[]", 12, __nullcTR[4], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[57] = __nullcRegisterType(2307698191u, "int[] ref(int,int,int)", 12, __nullcTR[56], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[58] = __nullcRegisterType(3724107199u, "auto ref ref(auto ref)", 12, __nullcTR[13], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[59] = __nullcRegisterType(1137649267u, "auto[] ref", 8, __nullcTR[15], 1, NULLC_POINTER, 4, 0);
	__nullcTR[60] = __nullcRegisterType(665024592u, "void ref(auto[] ref,auto[])", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[61] = __nullcRegisterType(2649967381u, "auto[] ref(auto[])", 12, __nullcTR[15], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[62] = __nullcRegisterType(2430896065u, "auto ref ref(auto ref,auto ref)", 12, __nullcTR[13], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[63] = __nullcRegisterType(3364104125u, "void ref(auto ref,auto ref)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[64] = __nullcRegisterType(4131070326u, "int ref(auto ref,auto ref)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[65] = __nullcRegisterType(4253285971u, "void ref(auto[],auto[])", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[66] = 0; // generic type 'void ref(generic,int,generic,int,int)'
	__nullcTR[67] = __nullcRegisterType(3761170085u, "void ref()", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[68] = __nullcRegisterType(1430923646u, "__function[] ref", 8, __nullcTR[17], 1, NULLC_POINTER, 4, 0);
	__nullcTR[69] = __nullcRegisterType(3427750478u, "void ref() ref(auto ref,__function[] ref)", 12, __nullcTR[67], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[70] = __nullcRegisterType(2985493640u, "char[] ref ref(char[] ref,int[])", 12, __nullcTR[23], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[71] = __nullcRegisterType(2463794733u, "short[]", 12, __nullcTR[3], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[72] = __nullcRegisterType(3958330154u, "short[] ref", 8, __nullcTR[71], 1, NULLC_POINTER, 4, 0);
	__nullcTR[73] = __nullcRegisterType(1935747820u, "short[] ref ref(short[] ref,int[])", 12, __nullcTR[72], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[74] = __nullcRegisterType(3010510963u, "float[]", 12, __nullcTR[6], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[75] = __nullcRegisterType(2248491120u, "float[] ref", 8, __nullcTR[74], 1, NULLC_POINTER, 4, 0);
	__nullcTR[76] = __nullcRegisterType(1040232248u, "double[]", 12, __nullcTR[7], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[77] = __nullcRegisterType(2467461000u, "float[] ref ref(float[] ref,double[])", 12, __nullcTR[75], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[78] = __nullcRegisterType(2066091864u, "typeid ref(auto ref)", 12, __nullcTR[8], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[79] = __nullcRegisterType(1908472638u, "int ref()", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[80] = __nullcRegisterType(3504529713u, "typeid ref", 8, __nullcTR[8], 1, NULLC_POINTER, 4, 0);
	__nullcTR[81] = __nullcRegisterType(1268871368u, "int ref(typeid,typeid)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[82] = __nullcRegisterType(3270246327u, "bool ref(auto ref,auto ref)", 12, __nullcTR[1], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[83] = __nullcRegisterType(3335638996u, "int ref(auto ref)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[84] = __nullcRegisterType(2688408224u, "int ref(void ref(int),void ref(int))", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[85] = __nullcRegisterType(2050556812u, "int ref(auto[],auto[])", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[86] = __nullcRegisterType(451037873u, "auto[] ref ref(auto[] ref,auto ref)", 12, __nullcTR[59], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[87] = __nullcRegisterType(3824954777u, "auto ref ref(auto ref,auto[] ref)", 12, __nullcTR[13], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[88] = __nullcRegisterType(477490926u, "auto ref ref(auto[] ref,int)", 12, __nullcTR[13], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[89] = __nullcRegisterType(4064539429u, "void ref(auto[] ref,typeid,int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[90] = __nullcRegisterType(3726221418u, "auto[] ref(typeid,int)", 12, __nullcTR[15], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[91] = __nullcRegisterType(527603730u, "void ref(auto ref,int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[92] = __nullcRegisterType(4086116458u, "void ref(auto[] ref,int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[93] = __nullcRegisterType(1812738619u, "void ref(auto ref)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[94] = __nullcRegisterType(3150998963u, "auto ref[]", 12, __nullcTR[13], -1, NULLC_ARRAY, 4, 0);
	__nullcTR[95] = __nullcRegisterType(160677633u, "auto ref[] ref()", 12, __nullcTR[94], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[96] = __nullcRegisterType(3351204628u, "__FinalizeProxy ref", 8, __nullcTR[16], 1, NULLC_POINTER, 4, 0);
	__nullcTR[97] = 0; // generic type 'generic[]'
	__nullcTR[98] = 0; // generic type 'bool ref(generic,generic[])'
	__nullcTR[99] = __nullcRegisterType(3533091824u, "bool ref(auto ref,typeid)", 12, __nullcTR[1], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[100] = __nullcRegisterType(530709260u, "void ref ref(void ref,typeid)", 12, __nullcTR[14], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[101] = 0; // generic type '@T'
	__nullcTR[102] = 0; // generic type '@T ref()'
	__nullcTR[103] = 0; // generic type 'auto ref(@T ref())'
	__nullcTR[104] = 0; // generic type '@T[]'
	__nullcTR[105] = 0; // generic type 'void ref(@T[])'
	__nullcTR[106] = __nullcRegisterType(2810184913u, "void ref ref", 8, __nullcTR[14], 1, NULLC_POINTER, 4, 0);
	__nullcTR[107] = __nullcRegisterType(3164121466u, "void ref(void ref ref,void ref,int,int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[108] = __nullcRegisterType(2159571807u, "bool ref()", 12, __nullcTR[1], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[109] = __nullcRegisterType(1317278788u, "void ref(int ref,int)", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[110] = __nullcRegisterType(4068422630u, "int ref(int ref)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[111] = __nullcRegisterType(2037312985u, "int ref(int ref(int),int)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[112] = __nullcRegisterType(1089031307u, "int ref(char[],int)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[113] = __nullcRegisterType(2767335131u, "void ref(char[])", 12, __nullcTR[0], 0, NULLC_FUNCTION, 4, 0);
	__nullcTR[114] = __nullcRegisterType(4082340512u, "int ref(int,int)", 12, __nullcTR[4], 0, NULLC_FUNCTION, 4, 0);

	// Register type members
	__nullcRegisterMembers(__nullcTR[13], 2, __nullcTR[8], 0, "type", __nullcTR[14], 4, "ptr"); // type 'auto ref' members
	__nullcRegisterMembers(__nullcTR[15], 3, __nullcTR[8], 0, "type", __nullcTR[14], 4, "ptr", __nullcTR[4], 12, "size"); // type 'auto[]' members
	__nullcRegisterMembers(__nullcTR[16], 0); // type '__FinalizeProxy' members
	__nullcRegisterMembers(__nullcTR[17], 1, __nullcTR[4], 8, "size"); // type '__function[]' members
	__nullcRegisterMembers(__nullcTR[18], 1, __nullcTR[4], 0, ""); // type 'void ref(int)' arguments
	__nullcRegisterMembers(__nullcTR[19], 1, __nullcTR[4], 8, "size"); // type 'char[]' members
	__nullcRegisterMembers(__nullcTR[20], 2, __nullcTR[4], 0, "", __nullcTR[19], 0, ""); // type 'void ref(int,char[])' arguments
	__nullcRegisterMembers(__nullcTR[21], 2, __nullcTR[19], 0, "", __nullcTR[19], 0, ""); // type 'int ref(char[],char[])' arguments
	__nullcRegisterMembers(__nullcTR[22], 2, __nullcTR[19], 0, "", __nullcTR[19], 0, ""); // type 'char[] ref(char[],char[])' arguments
	__nullcRegisterMembers(__nullcTR[24], 2, __nullcTR[23], 0, "", __nullcTR[19], 0, ""); // type 'char[] ref(char[] ref,char[])' arguments
	__nullcRegisterMembers(__nullcTR[25], 1, __nullcTR[1], 0, ""); // type 'bool ref(bool)' arguments
	__nullcRegisterMembers(__nullcTR[26], 1, __nullcTR[2], 0, ""); // type 'char ref(char)' arguments
	__nullcRegisterMembers(__nullcTR[27], 1, __nullcTR[3], 0, ""); // type 'short ref(short)' arguments
	__nullcRegisterMembers(__nullcTR[28], 1, __nullcTR[4], 0, ""); // type 'int ref(int)' arguments
	__nullcRegisterMembers(__nullcTR[29], 1, __nullcTR[5], 0, ""); // type 'long ref(long)' arguments
	__nullcRegisterMembers(__nullcTR[30], 1, __nullcTR[6], 0, ""); // type 'float ref(float)' arguments
	__nullcRegisterMembers(__nullcTR[31], 1, __nullcTR[7], 0, ""); // type 'double ref(double)' arguments
	__nullcRegisterMembers(__nullcTR[32], 1, __nullcTR[1], 0, ""); // type 'void ref(bool)' arguments
	__nullcRegisterMembers(__nullcTR[34], 1, __nullcTR[2], 0, ""); // type 'void ref(char)' arguments
	__nullcRegisterMembers(__nullcTR[36], 1, __nullcTR[3], 0, ""); // type 'void ref(short)' arguments
	__nullcRegisterMembers(__nullcTR[39], 1, __nullcTR[5], 0, ""); // type 'void ref(long)' arguments
	__nullcRegisterMembers(__nullcTR[41], 1, __nullcTR[6], 0, ""); // type 'void ref(float)' arguments
	__nullcRegisterMembers(__nullcTR[43], 1, __nullcTR[7], 0, ""); // type 'void ref(double)' arguments
	__nullcRegisterMembers(__nullcTR[45], 1, __nullcTR[2], 0, ""); // type 'int ref(char)' arguments
	__nullcRegisterMembers(__nullcTR[46], 1, __nullcTR[3], 0, ""); // type 'int ref(short)' arguments
	__nullcRegisterMembers(__nullcTR[47], 1, __nullcTR[4], 0, ""); // type 'long ref(int)' arguments
	__nullcRegisterMembers(__nullcTR[48], 1, __nullcTR[19], 0, ""); // type 'short ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[49], 0); // type 'char[] ref()' arguments
	__nullcRegisterMembers(__nullcTR[50], 1, __nullcTR[19], 0, ""); // type 'int ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[51], 1, __nullcTR[19], 0, ""); // type 'long ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[52], 1, __nullcTR[19], 0, ""); // type 'float ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[53], 2, __nullcTR[4], 0, "", __nullcTR[1], 0, ""); // type 'char[] ref(int,bool)' arguments
	__nullcRegisterMembers(__nullcTR[54], 1, __nullcTR[19], 0, ""); // type 'double ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[55], 2, __nullcTR[4], 0, "", __nullcTR[4], 0, ""); // type 'void ref ref(int,int)' arguments
	__nullcRegisterMembers(__nullcTR[56], 1, __nullcTR[4], 8, "size"); // type 'int[]' members
	__nullcRegisterMembers(__nullcTR[57], 3, __nullcTR[4], 0, "", __nullcTR[4], 0, "", __nullcTR[4], 0, ""); // type 'int[] ref(int,int,int)' arguments
	__nullcRegisterMembers(__nullcTR[58], 1, __nullcTR[13], 0, ""); // type 'auto ref ref(auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[60], 2, __nullcTR[59], 0, "", __nullcTR[15], 0, ""); // type 'void ref(auto[] ref,auto[])' arguments
	__nullcRegisterMembers(__nullcTR[61], 1, __nullcTR[15], 0, ""); // type 'auto[] ref(auto[])' arguments
	__nullcRegisterMembers(__nullcTR[62], 2, __nullcTR[13], 0, "", __nullcTR[13], 0, ""); // type 'auto ref ref(auto ref,auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[63], 2, __nullcTR[13], 0, "", __nullcTR[13], 0, ""); // type 'void ref(auto ref,auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[64], 2, __nullcTR[13], 0, "", __nullcTR[13], 0, ""); // type 'int ref(auto ref,auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[65], 2, __nullcTR[15], 0, "", __nullcTR[15], 0, ""); // type 'void ref(auto[],auto[])' arguments
	__nullcRegisterMembers(__nullcTR[67], 0); // type 'void ref()' arguments
	__nullcRegisterMembers(__nullcTR[69], 2, __nullcTR[13], 0, "", __nullcTR[68], 0, ""); // type 'void ref() ref(auto ref,__function[] ref)' arguments
	__nullcRegisterMembers(__nullcTR[70], 2, __nullcTR[23], 0, "", __nullcTR[56], 0, ""); // type 'char[] ref ref(char[] ref,int[])' arguments
	__nullcRegisterMembers(__nullcTR[71], 1, __nullcTR[4], 8, "size"); // type 'short[]' members
	__nullcRegisterMembers(__nullcTR[73], 2, __nullcTR[72], 0, "", __nullcTR[56], 0, ""); // type 'short[] ref ref(short[] ref,int[])' arguments
	__nullcRegisterMembers(__nullcTR[74], 1, __nullcTR[4], 8, "size"); // type 'float[]' members
	__nullcRegisterMembers(__nullcTR[76], 1, __nullcTR[4], 8, "size"); // type 'double[]' members
	__nullcRegisterMembers(__nullcTR[77], 2, __nullcTR[75], 0, "", __nullcTR[76], 0, ""); // type 'float[] ref ref(float[] ref,double[])' arguments
	__nullcRegisterMembers(__nullcTR[78], 1, __nullcTR[13], 0, ""); // type 'typeid ref(auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[79], 0); // type 'int ref()' arguments
	__nullcRegisterMembers(__nullcTR[81], 2, __nullcTR[8], 0, "", __nullcTR[8], 0, ""); // type 'int ref(typeid,typeid)' arguments
	__nullcRegisterMembers(__nullcTR[82], 2, __nullcTR[13], 0, "", __nullcTR[13], 0, ""); // type 'bool ref(auto ref,auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[83], 1, __nullcTR[13], 0, ""); // type 'int ref(auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[84], 2, __nullcTR[18], 0, "", __nullcTR[18], 0, ""); // type 'int ref(void ref(int),void ref(int))' arguments
	__nullcRegisterMembers(__nullcTR[85], 2, __nullcTR[15], 0, "", __nullcTR[15], 0, ""); // type 'int ref(auto[],auto[])' arguments
	__nullcRegisterMembers(__nullcTR[86], 2, __nullcTR[59], 0, "", __nullcTR[13], 0, ""); // type 'auto[] ref ref(auto[] ref,auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[87], 2, __nullcTR[13], 0, "", __nullcTR[59], 0, ""); // type 'auto ref ref(auto ref,auto[] ref)' arguments
	__nullcRegisterMembers(__nullcTR[88], 2, __nullcTR[59], 0, "", __nullcTR[4], 0, ""); // type 'auto ref ref(auto[] ref,int)' arguments
	__nullcRegisterMembers(__nullcTR[89], 3, __nullcTR[59], 0, "", __nullcTR[8], 0, "", __nullcTR[4], 0, ""); // type 'void ref(auto[] ref,typeid,int)' arguments
	__nullcRegisterMembers(__nullcTR[90], 2, __nullcTR[8], 0, "", __nullcTR[4], 0, ""); // type 'auto[] ref(typeid,int)' arguments
	__nullcRegisterMembers(__nullcTR[91], 2, __nullcTR[13], 0, "", __nullcTR[4], 0, ""); // type 'void ref(auto ref,int)' arguments
	__nullcRegisterMembers(__nullcTR[92], 2, __nullcTR[59], 0, "", __nullcTR[4], 0, ""); // type 'void ref(auto[] ref,int)' arguments
	__nullcRegisterMembers(__nullcTR[93], 1, __nullcTR[13], 0, ""); // type 'void ref(auto ref)' arguments
	__nullcRegisterMembers(__nullcTR[94], 1, __nullcTR[4], 8, "size"); // type 'auto ref[]' members
	__nullcRegisterMembers(__nullcTR[95], 0); // type 'auto ref[] ref()' arguments
	__nullcRegisterMembers(__nullcTR[99], 2, __nullcTR[13], 0, "", __nullcTR[8], 0, ""); // type 'bool ref(auto ref,typeid)' arguments
	__nullcRegisterMembers(__nullcTR[100], 2, __nullcTR[14], 0, "", __nullcTR[8], 0, ""); // type 'void ref ref(void ref,typeid)' arguments
	__nullcRegisterMembers(__nullcTR[107], 4, __nullcTR[106], 0, "", __nullcTR[14], 0, "", __nullcTR[4], 0, "", __nullcTR[4], 0, ""); // type 'void ref(void ref ref,void ref,int,int)' arguments
	__nullcRegisterMembers(__nullcTR[108], 0); // type 'bool ref()' arguments
	__nullcRegisterMembers(__nullcTR[109], 2, __nullcTR[38], 0, "", __nullcTR[4], 0, ""); // type 'void ref(int ref,int)' arguments
	__nullcRegisterMembers(__nullcTR[110], 1, __nullcTR[38], 0, ""); // type 'int ref(int ref)' arguments
	__nullcRegisterMembers(__nullcTR[111], 2, __nullcTR[28], 0, "", __nullcTR[4], 0, ""); // type 'int ref(int ref(int),int)' arguments
	__nullcRegisterMembers(__nullcTR[112], 2, __nullcTR[19], 0, "", __nullcTR[4], 0, ""); // type 'int ref(char[],int)' arguments
	__nullcRegisterMembers(__nullcTR[113], 1, __nullcTR[19], 0, ""); // type 'void ref(char[])' arguments
	__nullcRegisterMembers(__nullcTR[114], 2, __nullcTR[4], 0, "", __nullcTR[4], 0, ""); // type 'int ref(int,int)' arguments

	// Register globals

	// Register functions
	__nullcFR[0] = __nullcRegisterFunction("assert_void_ref_int_", (void*)assert_void_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[1] = __nullcRegisterFunction("assert_void_ref_int_char___", (void*)assert_void_ref_int_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[2] = __nullcRegisterFunction("__operatorEqual_int_ref_char___char___", (void*)__operatorEqual_int_ref_char___char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[3] = __nullcRegisterFunction("__operatorNEqual_int_ref_char___char___", (void*)__operatorNEqual_int_ref_char___char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[4] = __nullcRegisterFunction("__operatorAdd_char___ref_char___char___", (void*)__operatorAdd_char___ref_char___char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[5] = __nullcRegisterFunction("__operatorAddSet_char___ref_char___ref_char___", (void*)__operatorAddSet_char___ref_char___ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[6] = __nullcRegisterFunction("bool_bool_ref_bool_", (void*)bool_bool_ref_bool_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[7] = __nullcRegisterFunction("char_char_ref_char_", (void*)char_char_ref_char_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[8] = __nullcRegisterFunction("short_short_ref_short_", (void*)short_short_ref_short_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[9] = __nullcRegisterFunction("int_int_ref_int_", (void*)int_int_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[10] = __nullcRegisterFunction("long_long_ref_long_", (void*)long_long_ref_long_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[11] = __nullcRegisterFunction("float_float_ref_float_", (void*)float_float_ref_float_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[12] = __nullcRegisterFunction("double_double_ref_double_", (void*)double_double_ref_double_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[13] = __nullcRegisterFunction("bool__bool_void_ref_bool_", (void*)bool__bool_void_ref_bool_, __nullcTR[33], FunctionCategory::THISCALL, false);
	__nullcFR[14] = __nullcRegisterFunction("char__char_void_ref_char_", (void*)char__char_void_ref_char_, __nullcTR[35], FunctionCategory::THISCALL, false);
	__nullcFR[15] = __nullcRegisterFunction("short__short_void_ref_short_", (void*)short__short_void_ref_short_, __nullcTR[37], FunctionCategory::THISCALL, false);
	__nullcFR[16] = __nullcRegisterFunction("int__int_void_ref_int_", (void*)int__int_void_ref_int_, __nullcTR[38], FunctionCategory::THISCALL, false);
	__nullcFR[17] = __nullcRegisterFunction("long__long_void_ref_long_", (void*)long__long_void_ref_long_, __nullcTR[40], FunctionCategory::THISCALL, false);
	__nullcFR[18] = __nullcRegisterFunction("float__float_void_ref_float_", (void*)float__float_void_ref_float_, __nullcTR[42], FunctionCategory::THISCALL, false);
	__nullcFR[19] = __nullcRegisterFunction("double__double_void_ref_double_", (void*)double__double_void_ref_double_, __nullcTR[44], FunctionCategory::THISCALL, false);
	__nullcFR[20] = __nullcRegisterFunction("as_unsigned_int_ref_char_", (void*)as_unsigned_int_ref_char_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[21] = __nullcRegisterFunction("as_unsigned_int_ref_short_", (void*)as_unsigned_int_ref_short_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[22] = __nullcRegisterFunction("as_unsigned_long_ref_int_", (void*)as_unsigned_long_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[23] = __nullcRegisterFunction("short_short_ref_char___", (void*)short_short_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[24] = __nullcRegisterFunction("short__str_char___ref__", (void*)short__str_char___ref__, __nullcTR[37], FunctionCategory::THISCALL, false);
	__nullcFR[25] = __nullcRegisterFunction("int_int_ref_char___", (void*)int_int_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[26] = __nullcRegisterFunction("int__str_char___ref__", (void*)int__str_char___ref__, __nullcTR[38], FunctionCategory::THISCALL, false);
	__nullcFR[27] = __nullcRegisterFunction("long_long_ref_char___", (void*)long_long_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[28] = __nullcRegisterFunction("long__str_char___ref__", (void*)long__str_char___ref__, __nullcTR[40], FunctionCategory::THISCALL, false);
	__nullcFR[29] = __nullcRegisterFunction("float_float_ref_char___", (void*)float_float_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[30] = __nullcRegisterFunction("float__str_char___ref_int_bool_", (void*)float__str_char___ref_int_bool_, __nullcTR[42], FunctionCategory::THISCALL, false);
	__nullcFR[31] = __nullcRegisterFunction("double_double_ref_char___", (void*)double_double_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[32] = __nullcRegisterFunction("double__str_char___ref_int_bool_", (void*)double__str_char___ref_int_bool_, __nullcTR[44], FunctionCategory::THISCALL, false);
	__nullcFR[33] = __nullcRegisterFunction("__newS_void_ref_ref_int_int_", (void*)__newS_void_ref_ref_int_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[34] = __nullcRegisterFunction("__newA_int___ref_int_int_int_", (void*)__newA_int___ref_int_int_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[35] = __nullcRegisterFunction("duplicate_auto_ref_ref_auto_ref_", (void*)duplicate_auto_ref_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[36] = __nullcRegisterFunction("__duplicate_array_void_ref_auto___ref_auto___", (void*)__duplicate_array_void_ref_auto___ref_auto___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[37] = __nullcRegisterFunction("duplicate_auto___ref_auto___", (void*)duplicate_auto___ref_auto___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[38] = __nullcRegisterFunction("replace_auto_ref_ref_auto_ref_auto_ref_", (void*)replace_auto_ref_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[39] = __nullcRegisterFunction("swap_void_ref_auto_ref_auto_ref_", (void*)swap_void_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[40] = __nullcRegisterFunction("equal_int_ref_auto_ref_auto_ref_", (void*)equal_int_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[41] = __nullcRegisterFunction("assign_void_ref_auto_ref_auto_ref_", (void*)assign_void_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[42] = __nullcRegisterFunction("array_copy_void_ref_auto___auto___", (void*)array_copy_void_ref_auto___auto___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[43] = 0; // generic function 'array_copy'
	__nullcFR[44] = __nullcRegisterFunction("__redirect_void_ref___ref_auto_ref___function___ref_", (void*)__redirect_void_ref___ref_auto_ref___function___ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[45] = __nullcRegisterFunction("__redirect_ptr_void_ref___ref_auto_ref___function___ref_", (void*)__redirect_ptr_void_ref___ref_auto_ref___function___ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[46] = __nullcRegisterFunction("__aassign_itoc_char___ref_ref_char___ref_int___", (void*)__aassign_itoc_char___ref_ref_char___ref_int___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[47] = __nullcRegisterFunction("__aassign_itos_short___ref_ref_short___ref_int___", (void*)__aassign_itos_short___ref_ref_short___ref_int___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[48] = __nullcRegisterFunction("__aassign_dtof_float___ref_ref_float___ref_double___", (void*)__aassign_dtof_float___ref_ref_float___ref_double___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[49] = __nullcRegisterFunction("typeid_typeid_ref_auto_ref_", (void*)typeid_typeid_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[50] = __nullcRegisterFunction("typeid__size__int_ref___", (void*)typeid__size__int_ref___, __nullcTR[80], FunctionCategory::THISCALL, false);
	__nullcFR[51] = __nullcRegisterFunction("__operatorEqual_int_ref_typeid_typeid_", (void*)__operatorEqual_int_ref_typeid_typeid_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[52] = __nullcRegisterFunction("__operatorNEqual_int_ref_typeid_typeid_", (void*)__operatorNEqual_int_ref_typeid_typeid_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[53] = __nullcRegisterFunction("__rcomp_int_ref_auto_ref_auto_ref_", (void*)__rcomp_int_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[54] = __nullcRegisterFunction("__rncomp_int_ref_auto_ref_auto_ref_", (void*)__rncomp_int_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[55] = __nullcRegisterFunction("__operatorLess_bool_ref_auto_ref_auto_ref_", (void*)__operatorLess_bool_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[56] = __nullcRegisterFunction("__operatorLEqual_bool_ref_auto_ref_auto_ref_", (void*)__operatorLEqual_bool_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[57] = __nullcRegisterFunction("__operatorGreater_bool_ref_auto_ref_auto_ref_", (void*)__operatorGreater_bool_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[58] = __nullcRegisterFunction("__operatorGEqual_bool_ref_auto_ref_auto_ref_", (void*)__operatorGEqual_bool_ref_auto_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[59] = __nullcRegisterFunction("hash_value_int_ref_auto_ref_", (void*)hash_value_int_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[60] = __nullcRegisterFunction("__pcomp_int_ref_void_ref_int__void_ref_int__", (void*)__pcomp_int_ref_void_ref_int__void_ref_int__, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[61] = __nullcRegisterFunction("__pncomp_int_ref_void_ref_int__void_ref_int__", (void*)__pncomp_int_ref_void_ref_int__void_ref_int__, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[62] = __nullcRegisterFunction("__acomp_int_ref_auto___auto___", (void*)__acomp_int_ref_auto___auto___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[63] = __nullcRegisterFunction("__ancomp_int_ref_auto___auto___", (void*)__ancomp_int_ref_auto___auto___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[64] = __nullcRegisterFunction("__typeCount_int_ref__", (void*)__typeCount_int_ref__, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[65] = __nullcRegisterFunction("__operatorSet_auto___ref_ref_auto___ref_auto_ref_", (void*)__operatorSet_auto___ref_ref_auto___ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[66] = __nullcRegisterFunction("__aaassignrev_auto_ref_ref_auto_ref_auto___ref_", (void*)__aaassignrev_auto_ref_ref_auto_ref_auto___ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[67] = __nullcRegisterFunction("__operatorIndex_auto_ref_ref_auto___ref_int_", (void*)__operatorIndex_auto_ref_ref_auto___ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[68] = __nullcRegisterFunction("isStackPointer_int_ref_auto_ref_", (void*)isStackPointer_int_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[69] = __nullcRegisterFunction("auto_array_impl_void_ref_auto___ref_typeid_int_", (void*)auto_array_impl_void_ref_auto___ref_typeid_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[70] = __nullcRegisterFunction("auto_array_auto___ref_typeid_int_", (void*)auto_array_auto___ref_typeid_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[71] = __nullcRegisterFunction("auto____set_void_ref_auto_ref_int_", (void*)auto____set_void_ref_auto_ref_int_, __nullcTR[59], FunctionCategory::THISCALL, false);
	__nullcFR[72] = __nullcRegisterFunction("__force_size_void_ref_auto___ref_int_", (void*)__force_size_void_ref_auto___ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[73] = __nullcRegisterFunction("isCoroutineReset_int_ref_auto_ref_", (void*)isCoroutineReset_int_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[74] = __nullcRegisterFunction("__assertCoroutine_void_ref_auto_ref_", (void*)__assertCoroutine_void_ref_auto_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[75] = __nullcRegisterFunction("__getFinalizeList_auto_ref___ref__", (void*)__getFinalizeList_auto_ref___ref__, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[76] = __nullcRegisterFunction("__FinalizeProxy__finalize_void_ref__", (void*)__FinalizeProxy__finalize_void_ref__, __nullcTR[96], FunctionCategory::THISCALL, false);
	__nullcFR[77] = __nullcRegisterFunction("__finalizeObjects_void_ref__", (void*)__finalizeObjects_void_ref__, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[78] = 0; // generic function 'in'
	__nullcFR[79] = __nullcRegisterFunction("is_derived_from_bool_ref_auto_ref_typeid_", (void*)is_derived_from_bool_ref_auto_ref_typeid_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[80] = __nullcRegisterFunction("__assert_derived_from_void_ref_ref_void_ref_typeid_", (void*)__assert_derived_from_void_ref_ref_void_ref_typeid_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[81] = 0; // generic function '__gen_list'
	__nullcFR[82] = 0; // generic function '__init_array'
	__nullcFR[83] = __nullcRegisterFunction("__closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_", (void*)__closeUpvalue_void_ref_void_ref_ref_void_ref_int_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[84] = __nullcRegisterFunction("float__str_610894668_precision__int_ref___", (void*)float__str_610894668_precision__int_ref___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[85] = __nullcRegisterFunction("float__str_610894668_showExponent__bool_ref___", (void*)float__str_610894668_showExponent__bool_ref___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[86] = __nullcRegisterFunction("double__str_610894668_precision__int_ref___", (void*)double__str_610894668_precision__int_ref___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[87] = __nullcRegisterFunction("double__str_610894668_showExponent__bool_ref___", (void*)double__str_610894668_showExponent__bool_ref___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[88] = __nullcRegisterFunction("hset_void_ref_int_ref_int_", (void*)hset_void_ref_int_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[89] = __nullcRegisterFunction("hget_int_ref_int_ref_", (void*)hget_int_ref_int_ref_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[90] = __nullcRegisterFunction("hcall_int_ref_int_ref_int__int_", (void*)hcall_int_ref_int_ref_int__int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[91] = __nullcRegisterFunction("hname_int_ref_char___int_", (void*)hname_int_ref_char___int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[92] = __nullcRegisterFunction("t_void_ref_int_", (void*)t_void_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[93] = __nullcRegisterFunction("tl_void_ref_long_", (void*)tl_void_ref_long_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[94] = __nullcRegisterFunction("td_void_ref_double_", (void*)td_void_ref_double_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[95] = __nullcRegisterFunction("ts_void_ref_char___", (void*)ts_void_ref_char___, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[96] = __nullcRegisterFunction("te_int_ref_int_int_", (void*)te_int_ref_int_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[97] = __nullcRegisterFunction("hostfail_int_ref_int_", (void*)hostfail_int_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[98] = __nullcRegisterFunction("hide_int_ref_int_", (void*)hide_int_ref_int_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[99] = __nullcRegisterFunction("hidel_long_ref_long_", (void*)hidel_long_ref_long_, __nullcTR[14], FunctionCategory::NORMAL, false);
	__nullcFR[100] = __nullcRegisterFunction("hided_double_ref_double_", (void*)hided_double_ref_double_, __nullcTR[14], FunctionCategory::NORMAL, false);

	// Setup
	{
	};

	// Expressions
	(
		(NULLCFuncPtr<__typeProxy_void_ref_int_ref_int_>)__nullcMakeFunction(__nullcFR[88], 0), 
		(NULLCFuncPtr<__typeProxy_void_ref_int_ref_int_>)__nullcMakeFunction(__nullcFR[88], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_int_ref_>)__nullcMakeFunction(__nullcFR[89], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_int_ref_>)__nullcMakeFunction(__nullcFR[89], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_int_ref_int__int_>)__nullcMakeFunction(__nullcFR[90], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_int_ref_int__int_>)__nullcMakeFunction(__nullcFR[90], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_char___int_>)__nullcMakeFunction(__nullcFR[91], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_char___int_>)__nullcMakeFunction(__nullcFR[91], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_void_ref_int_>)__nullcMakeFunction(__nullcFR[92], 0), 
		(NULLCFuncPtr<__typeProxy_void_ref_int_>)__nullcMakeFunction(__nullcFR[92], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_void_ref_long_>)__nullcMakeFunction(__nullcFR[93], 0), 
		(NULLCFuncPtr<__typeProxy_void_ref_long_>)__nullcMakeFunction(__nullcFR[93], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_void_ref_double_>)__nullcMakeFunction(__nullcFR[94], 0), 
		(NULLCFuncPtr<__typeProxy_void_ref_double_>)__nullcMakeFunction(__nullcFR[94], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_void_ref_char___>)__nullcMakeFunction(__nullcFR[95], 0), 
		(NULLCFuncPtr<__typeProxy_void_ref_char___>)__nullcMakeFunction(__nullcFR[95], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_int_int_>)__nullcMakeFunction(__nullcFR[96], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_int_int_>)__nullcMakeFunction(__nullcFR[96], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_int_>)__nullcMakeFunction(__nullcFR[97], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_int_>)__nullcMakeFunction(__nullcFR[97], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_int_ref_int_>)__nullcMakeFunction(__nullcFR[98], 0), 
		(NULLCFuncPtr<__typeProxy_int_ref_int_>)__nullcMakeFunction(__nullcFR[98], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_long_ref_long_>)__nullcMakeFunction(__nullcFR[99], 0), 
		(NULLCFuncPtr<__typeProxy_long_ref_long_>)__nullcMakeFunction(__nullcFR[99], (void*)0)
	);
	(
		(NULLCFuncPtr<__typeProxy_double_ref_double_>)__nullcMakeFunction(__nullcFR[100], 0), 
		(NULLCFuncPtr<__typeProxy_double_ref_double_>)__nullcMakeFunction(__nullcFR[100], (void*)0)
	);
	return 0;
}
