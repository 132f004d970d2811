// Stand-in for an MPI library: ranks are processes sharing a mapped file; delays and late completions are injected
// within what the MPI standard permits, and misuse of the interface is reported.
#ifndef VERIF_MINI_MPI_H
#define VERIF_MINI_MPI_H
#include <cstddef>
#define MPI_VERSION 3
#define MPI_SUCCESS 0
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; }; typedef int MPI_Request;
#define MPI_COMM_WORLD 0
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_BYTE 1
#define MPI_INT 2
#define MPI_UNSIGNED_LONG 3
#define MPI_DOUBLE 4
#define MPI_FLOAT 5
#define MPI_MIN 1
#define MPI_MAX 2
#define MPI_SUM 3
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
int MPI_Init( int *, char *** ); int MPI_Init_thread( int *, char ***, int, int * ); int MPI_Initialized( int * ); int MPI_Finalize();
int MPI_Comm_size( MPI_Comm, int * ); int MPI_Comm_rank( MPI_Comm, int * ); int MPI_Get_version( int *, int * ); int MPI_Barrier( MPI_Comm );
int MPI_Allreduce( void const *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm );
int MPI_Isend( void const *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * );
int MPI_Irecv( void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request * );
int MPI_Test( MPI_Request *, int *, MPI_Status * ); int MPI_Waitall( int, MPI_Request *, MPI_Status * );
#endif
