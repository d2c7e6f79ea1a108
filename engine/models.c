// instrumented replacements of libc functions
#include <stddef.h>
#include <stdlib.h>
int __symm_memcmp(const void* a, const void* b, size_t n) { const unsigned char *x=a,*y=b; for (size_t i=0;i<n;++i) if (x[i]!=y[i]) return x[i]<y[i]?-1:1; return 0; }
size_t __symm_strlen(const char* s) { size_t n=0; while (s[n]) ++n; return n; }
int __symm_strcmp(const char* a, const char* b) { for (;;++a,++b) { unsigned char x=*a,y=*b; if (x!=y) return x<y?-1:1; if (!x) return 0; } }
int __symm_strncmp(const char* a, const char* b, size_t n) { for (;n;++a,++b,--n) { unsigned char x=*a,y=*b; if (x!=y) return x<y?-1:1; if (!x) return 0; } return 0; }
void* __symm_memchr(const void* s, int c, size_t n) { const unsigned char* p=s; for (size_t i=0;i<n;++i) if (p[i]==(unsigned char)c) return (void*)(p+i); return 0; }
void* __symm_memrchr(const void* s, int c, size_t n) { const unsigned char* p=s; while (n--) if (p[n]==(unsigned char)c) return (void*)(p+n); return 0; }
char* __symm_strchr(const char* s, int c) { for (;;++s) { if (*s==(char)c) return (char*)s; if (!*s) return 0; } }
int __symm_isalnum(int c) { return (c>='0'&&c<='9')||(c>='A'&&c<='Z')||(c>='a'&&c<='z'); }
int __symm_isdigit(int c) { return c>='0'&&c<='9'; }
int __symm_isspace(int c) { return c==' '||(c>=9&&c<=13); }
int __symm_tolower(int c) { return c>='A'&&c<='Z'? c+32: c; }
int __symm_toupper(int c) { return c>='a'&&c<='z'? c-32: c; }
char* __symm_strdup(const char* s) { size_t n=0; while (s[n]) ++n; char* r=malloc(n+1); for (size_t i=0;i<=n;++i) r[i]=s[i]; return r; }
char* __symm_strcpy(char* d, const char* s) { size_t i=0; do d[i]=s[i]; while (s[i++]); return d; }
