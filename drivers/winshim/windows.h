/* Just enough of the Windows API to build win32/memstream.c on Linux. */
#ifndef SHIM_WINDOWS_H
#define SHIM_WINDOWS_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <wchar.h>
#define STDMETHODCALLTYPE
#define WINAPI
#define CALLBACK
#define CONST const
typedef int32_t LONG, HRESULT, BOOL, INT; typedef uint32_t ULONG, DWORD, UINT; typedef uint8_t BYTE; typedef uint16_t WORD, USHORT; typedef int16_t SHORT;
typedef int64_t LONGLONG, LONG64, INT64; typedef uint64_t ULONGLONG, DWORDLONG, ULONG64, UINT64; typedef uintptr_t UINT_PTR, ULONG_PTR, DWORD_PTR; typedef intptr_t INT_PTR, LONG_PTR; typedef size_t SIZE_T;
typedef uint16_t WCHAR; typedef WCHAR* LPWSTR; typedef const WCHAR* LPCWSTR; typedef WCHAR OLECHAR; typedef OLECHAR* LPOLESTR; typedef char CHAR; typedef BYTE* LPBYTE; typedef BYTE* PBYTE;
typedef void* HANDLE; typedef void VOID; typedef void* PVOID; typedef void* LPVOID; typedef const void* LPCVOID;
typedef struct HINSTANCE__* HINSTANCE; typedef HINSTANCE HMODULE; typedef struct HRSRC__* HRSRC; typedef HANDLE HGLOBAL;
typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
#ifndef TRUE
#define TRUE 1
#define FALSE 0
#endif
#define MAXDWORD 0xffffffffU
#define ULONG_MAX_ 0xffffffffU
#define _HR(x) ((HRESULT) (x))
#define S_OK _HR(0)
#define S_FALSE _HR(1)
#define E_NOTIMPL _HR(0x80004001u)
#define E_NOINTERFACE _HR(0x80004002u)
#define E_POINTER _HR(0x80004003u)
#define E_ABORT _HR(0x80004004u)
#define E_FAIL _HR(0x80004005u)
#define E_UNEXPECTED _HR(0x8000ffffu)
#define E_ACCESSDENIED _HR(0x80070005u)
#define E_OUTOFMEMORY _HR(0x8007000eu)
#define E_INVALIDARG _HR(0x80070057u)
#define STG_E_INVALIDFUNCTION _HR(0x80030001u)
#define STG_E_ACCESSDENIED _HR(0x80030005u)
#define STG_E_INSUFFICIENTMEMORY _HR(0x80030008u)
#define STG_E_INVALIDPOINTER _HR(0x80030009u)
#define STG_E_SEEKERROR _HR(0x80030019u)
#define STG_E_WRITEFAULT _HR(0x8003001du)
#define STG_E_READFAULT _HR(0x8003001eu)
#define STG_E_INVALIDPARAMETER _HR(0x80030057u)
#define STG_E_MEDIUMFULL _HR(0x80030070u)
#define STG_E_INVALIDFLAG _HR(0x800300ffu)
#define STG_E_CANTSAVE _HR(0x80030103u)
#define SUCCEEDED(hr) (((HRESULT)(hr)) >= 0)
#define FAILED(hr) (((HRESULT)(hr)) < 0)
#define ERROR_SUCCESS 0L
#define NO_ERROR 0L
#define ERROR_FILE_NOT_FOUND 2L
#define ERROR_ACCESS_DENIED 5L
#define ERROR_NOT_ENOUGH_MEMORY 8L
#define ERROR_OUTOFMEMORY 14L
#define ERROR_INVALID_PARAMETER 87L
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812L
#define ERROR_RESOURCE_TYPE_NOT_FOUND 1813L
#define FACILITY_WIN32 7
#define HRESULT_FROM_WIN32(x) ((HRESULT)(x) <= 0 ? ((HRESULT)(x)) : ((HRESULT)(((x) & 0x0000FFFF) | (FACILITY_WIN32 << 16) | 0x80000000)))
/* Every interlocked operation is one atomic step; the driver may let other threads run right after it. */
extern void (*shim_yield)(void);
static inline LONG shim_after(LONG r) { if(shim_yield) shim_yield(); return r; }
static inline LONG InterlockedIncrement(volatile LONG* p) { return shim_after(__sync_add_and_fetch(p, 1)); }
static inline LONG InterlockedDecrement(volatile LONG* p) { return shim_after(__sync_sub_and_fetch(p, 1)); }
static inline LONG InterlockedExchangeAdd(volatile LONG* p, LONG v) { return shim_after(__sync_fetch_and_add(p, v)); }
static inline LONG InterlockedAdd(volatile LONG* p, LONG v) { return shim_after(__sync_add_and_fetch(p, v)); }
static inline LONG InterlockedExchange(volatile LONG* p, LONG v) { return shim_after(__atomic_exchange_n(p, v, __ATOMIC_SEQ_CST)); }
static inline LONG InterlockedCompareExchange(volatile LONG* p, LONG v, LONG c) { return shim_after(__sync_val_compare_and_swap(p, c, v)); }
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))
#define FillMemory(d, n, c) memset((d), (c), (n))
#define ZeroMemory(d, n) memset((d), 0, (n))
#define UNREFERENCED_PARAMETER(x) ((void)(x))
#ifndef min
#define min(a, b) ((a) < (b) ? (a) : (b))
#define max(a, b) ((a) > (b) ? (a) : (b))
#endif
typedef struct { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID, IID, CLSID;
typedef const IID* REFIID; typedef const GUID* REFGUID; typedef const CLSID* REFCLSID;
static inline int IsEqualGUID(REFGUID a, REFGUID b) { return memcmp(a, b, sizeof(GUID)) == 0; }
#define IsEqualIID(a, b) IsEqualGUID((a), (b))
DWORD GetLastError(void); void SetLastError(DWORD e);
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type); DWORD SizeofResource(HMODULE m, HRSRC r); HGLOBAL LoadResource(HMODULE m, HRSRC r); LPVOID LockResource(HGLOBAL g);
static inline HANDLE GetProcessHeap(void) { return (HANDLE) 1; }
#define HEAP_ZERO_MEMORY 8
static inline void* HeapAlloc(HANDLE h, DWORD f, SIZE_T n) { (void) h; return (f & HEAP_ZERO_MEMORY) ? calloc(1, n) : malloc(n); }
static inline BOOL HeapFree(HANDLE h, DWORD f, void* p) { (void) h; (void) f; free(p); return TRUE; }
#endif
