#ifndef SHIM_OBJIDL_H
#define SHIM_OBJIDL_H
#include "windows.h"
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct tagSTATSTG { LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; FILETIME mtime, ctime, atime; DWORD grfMode; DWORD grfLocksSupported; CLSID clsid; DWORD grfStateBits; DWORD reserved; } STATSTG;
enum { STGTY_STORAGE = 1, STGTY_STREAM = 2, STGTY_LOCKBYTES = 3, STGTY_PROPERTY = 4 };
enum { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 };
#define STGM_READ 0
#define STGM_WRITE 1
#define STGM_READWRITE 2
#define STATFLAG_DEFAULT 0
#define STATFLAG_NONAME 1
typedef struct IStream IStream;
typedef struct IStreamVtbl {
    HRESULT (*QueryInterface)(IStream*, REFIID, void**); ULONG (*AddRef)(IStream*); ULONG (*Release)(IStream*);
    HRESULT (*Read)(IStream*, void*, ULONG, ULONG*); HRESULT (*Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (*Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*); HRESULT (*SetSize)(IStream*, ULARGE_INTEGER);
    HRESULT (*CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (*Commit)(IStream*, DWORD); HRESULT (*Revert)(IStream*);
    HRESULT (*LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD); HRESULT (*UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (*Stat)(IStream*, STATSTG*, DWORD); HRESULT (*Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
typedef IStream ISequentialStream; typedef IStream IUnknown;
extern const IID IID_IUnknown, IID_IDispatch, IID_ISequentialStream, IID_IStream;
#define IStream_QueryInterface(s, a, b) (s)->lpVtbl->QueryInterface((s), (a), (b))
#define IStream_AddRef(s) (s)->lpVtbl->AddRef(s)
#define IStream_Release(s) (s)->lpVtbl->Release(s)
#define IStream_Read(s, a, b, c) (s)->lpVtbl->Read((s), (a), (b), (c))
#define IStream_Write(s, a, b, c) (s)->lpVtbl->Write((s), (a), (b), (c))
#define IStream_Seek(s, a, b, c) (s)->lpVtbl->Seek((s), (a), (b), (c))
#define IStream_SetSize(s, a) (s)->lpVtbl->SetSize((s), (a))
#define IStream_CopyTo(s, a, b, c, d) (s)->lpVtbl->CopyTo((s), (a), (b), (c), (d))
#define IStream_Commit(s, a) (s)->lpVtbl->Commit((s), (a))
#define IStream_Revert(s) (s)->lpVtbl->Revert(s)
#define IStream_LockRegion(s, a, b, c) (s)->lpVtbl->LockRegion((s), (a), (b), (c))
#define IStream_UnlockRegion(s, a, b, c) (s)->lpVtbl->UnlockRegion((s), (a), (b), (c))
#define IStream_Stat(s, a, b) (s)->lpVtbl->Stat((s), (a), (b))
#define IStream_Clone(s, a) (s)->lpVtbl->Clone((s), (a))
#endif
