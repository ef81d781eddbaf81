/* declarations of the Windows names random.c uses, for analysing its Windows branch */
#pragma once
#ifndef NULL
#define NULL ((void *)0)
#endif
typedef unsigned long ULONG; typedef unsigned char UCHAR, *PUCHAR; typedef long LONG, NTSTATUS; typedef void *PVOID, *HANDLE; typedef unsigned long DWORD; typedef int BOOL;
void Sleep(DWORD ms);
