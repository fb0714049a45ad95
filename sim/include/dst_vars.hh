/* PURPOSE: (variables the simulated clients, recorders and checkpoints use) */
#ifndef DST_VARS_HH
#define DST_VARS_HH
#include <string>
#include <vector>
#include <map>
#include <list>
#include "trick/SimObject.hh"
enum DstEnum { DE_ZERO = 0, DE_ONE = 1, DE_SEVEN = 7, DE_NEG = -3 } ;
class DstNode {
  public:
    int a ;              /* (--) */
    double b[3] ;        /* (m) */
    std::string s ;      /* (--) */
    DstNode * next ;     /* (--) */
    DstNode() : a(0), next(0) { b[0] = b[1] = b[2] = 0 ; }
} ;
// what is sent between machines of different byte order
class DstWireIn {
  public:
    short a ;            /* (--) */
    int b ;              /* (--) */
    unsigned int p : 4 ; /* (--) */
    unsigned int q : 9 ; /* (--) */
} ;
class DstWire {
  public:
    char c ;             /* (--) */
    unsigned char uc[5] ; /* (--) */
    short s ;            /* (--) */
    unsigned short us[3] ; /* (--) */
    int i ;              /* (--) */
    unsigned int u ;     /* (--) */
    long l ;             /* (--) */
    unsigned long long ull ; /* (--) */
    float f ;            /* (--) */
    double d ;           /* (--) */
    int m[2][3] ;        /* (--) */
    bool b ;             /* (--) */
    DstEnum e ;          /* (--) */
    DstWireIn in[2] ;    /* (--) */
    unsigned int b1 : 3 ; /* (--) */
    int b2 : 7 ;         /* (--) */
    unsigned int b3 : 22 ; /* (--) */
    int g ;              /* (--) */
    unsigned int b4 : 5 ; /* (--) */
    int b5 : 4 ;         /* (--) */
} ;
class DstVars {
  public:
    int i ;              /* (--) */
    double x ;           /* (m) */
    float f ;            /* (m/s) */
    short sh ;           /* (--) */
    unsigned short ush ; /* (--) */
    long l ;             /* (--) */
    unsigned int u ;     /* (--) */
    long long ll ;       /* (--) */
    unsigned long long ull ; /* (--) */
    char c ;             /* (--) */
    unsigned char uc ;   /* (--) */
    bool b ;             /* (--) */
    DstEnum e ;          /* (--) */
    unsigned int bf1 : 3 ; /* (--) */
    unsigned int bf2 : 7 ; /* (--) */
    int bf3 : 5 ;        /* (--) */
    double arr[4] ;      /* (m) */
    int mat[2][3] ;      /* (--) */
    char str[32] ;       /* (--) */
    char * cp ;          /* (--) */
    std::string s ;      /* (--) */
    std::string sa[2] ;  /* (--) */
    int * dyn ;          /* (--) */
    double ** dpp ;      /* (--) */
    DstNode node ;       /* (--) */
    DstNode nodes[2] ;   /* (--) */
    DstNode * pnode ;    /* (--) */
    std::vector<double> vec ; /* (--) */
    long long cnt[8] ;   /* (--) all set together once per step */
    double kg ;          /* (kg) */
    double ang ;         /* (rad) */
    int w[64] ;          /* (--) */
    int * pa[3] ;        /* (--) */
    DstNode * pn[2] ;    /* (--) */
    std::map<int,double> mp ;        /* (--) */
    std::vector<std::string> vs ;    /* (--) */
    std::list<int> li ;              /* (--) */
    float farr[3] ;      /* (--) */
    unsigned long ul ;   /* (--) */
    bool ba[3] ;         /* (--) */
    DstVars() : i(0), x(0), f(0), sh(0), ush(0), l(0), u(0), ll(0), ull(0), c(0), uc(0), b(false), e(DE_ZERO), bf1(0), bf2(0), bf3(0), cp(0), dyn(0), dpp(0), pnode(0), kg(0), ang(0), ul(0) {
        for (int k = 0 ; k < 3 ; k++) { pa[k] = 0 ; farr[k] = 0 ; ba[k] = false ; }
        pn[0] = pn[1] = 0 ;
        for (int k = 0 ; k < 4 ; k++) arr[k] = 0 ;
        for (int k = 0 ; k < 8 ; k++) cnt[k] = 0 ;
        for (int k = 0 ; k < 64 ; k++) w[k] = 0 ;
        for (int k = 0 ; k < 6 ; k++) mat[k/3][k%3] = 0 ;
        for (int k = 0 ; k < 32 ; k++) str[k] = 0 ;
    }
} ;
// a simulation object that checkpoints know; its jobs are made by the worlds
class DstObj : public Trick::SimObject {
  public:
    DstVars v ;          /* (--) */
    DstObj() {}
    virtual int call_function( Trick::JobData * ) { return 0 ; }
    virtual double call_function_double( Trick::JobData * ) { return 0 ; }
} ;
extern "C" const char * dst_snapshot(void) ;
extern "C" int dst_call(int n, int a, int b) ;
#endif
