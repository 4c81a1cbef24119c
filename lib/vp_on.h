// Generated: obligations of a property are compiled in with -DVP_ON_<id>=1.
#ifndef VP_ON_H
#define VP_ON_H
#ifndef VP_ON_C01
#define VP_ON_C01 0
#endif
#ifndef VP_ON_C02
#define VP_ON_C02 0
#endif
#ifndef VP_ON_C03
#define VP_ON_C03 0
#endif
#ifndef VP_ON_C04
#define VP_ON_C04 0
#endif
#ifndef VP_ON_C05
#define VP_ON_C05 0
#endif
#ifndef VP_ON_C06
#define VP_ON_C06 0
#endif
#ifndef VP_ON_C07
#define VP_ON_C07 0
#endif
#ifndef VP_ON_C08
#define VP_ON_C08 0
#endif
#ifndef VP_ON_C09
#define VP_ON_C09 0
#endif
#ifndef VP_ON_C10
#define VP_ON_C10 0
#endif
#ifndef VP_ON_C11
#define VP_ON_C11 0
#endif
#ifndef VP_ON_C12
#define VP_ON_C12 0
#endif
#ifndef VP_ON_C13
#define VP_ON_C13 0
#endif
#ifndef VP_ON_C14
#define VP_ON_C14 0
#endif
#ifndef VP_ON_C15
#define VP_ON_C15 0
#endif
#ifndef VP_ON_C16
#define VP_ON_C16 0
#endif
#ifndef VP_ON_C17
#define VP_ON_C17 0
#endif
#ifndef VP_ON_C18
#define VP_ON_C18 0
#endif
#ifndef VP_ON_C19
#define VP_ON_C19 0
#endif
#ifndef VP_ON_C20
#define VP_ON_C20 0
#endif
#ifndef VP_ON_C21
#define VP_ON_C21 0
#endif
#ifndef VP_ON_C22
#define VP_ON_C22 0
#endif
#ifndef VP_ON_C23
#define VP_ON_C23 0
#endif
#ifndef VP_ON_C24
#define VP_ON_C24 0
#endif
#ifndef VP_ON_C25
#define VP_ON_C25 0
#endif
#ifndef VP_ON_C26
#define VP_ON_C26 0
#endif
#ifndef VP_ON_C27
#define VP_ON_C27 0
#endif
#ifndef VP_ON_C28
#define VP_ON_C28 0
#endif
#ifndef VP_ON_C29
#define VP_ON_C29 0
#endif
#ifndef VP_ON_C30
#define VP_ON_C30 0
#endif
#ifndef VP_ON_C31
#define VP_ON_C31 0
#endif
#ifndef VP_ON_C32
#define VP_ON_C32 0
#endif
#ifndef VP_ON_C33
#define VP_ON_C33 0
#endif
#ifndef VP_ON_C34
#define VP_ON_C34 0
#endif
#ifndef VP_ON_C35
#define VP_ON_C35 0
#endif
#ifndef VP_ON_C36
#define VP_ON_C36 0
#endif
#ifndef VP_ON_C37
#define VP_ON_C37 0
#endif
#ifndef VP_ON_C38
#define VP_ON_C38 0
#endif
#ifndef VP_ON_C39
#define VP_ON_C39 0
#endif
#ifndef VP_ON_C40
#define VP_ON_C40 0
#endif
#endif
