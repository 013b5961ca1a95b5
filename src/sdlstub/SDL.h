/* Stand-in for SDL: what the drawing program uses of it, recorded by c17.cpp. */
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct SDL_Window SDL_Window;
typedef struct SDL_Rect { int x, y, w, h; } SDL_Rect;
typedef struct SDL_PixelFormat { uint32_t format; uint8_t BitsPerPixel, BytesPerPixel; } SDL_PixelFormat;
typedef struct SDL_Surface {
  uint32_t flags;
  SDL_PixelFormat *format;
  int w, h, pitch;
  void *pixels;
} SDL_Surface;
typedef union SDL_Event { uint32_t type; uint8_t padding[64]; } SDL_Event;
typedef uint8_t Uint8;
typedef uint32_t Uint32;
typedef int32_t Sint32;
typedef int SDL_Scancode;
#define SDL_INIT_VIDEO 0x20u
#define SDL_INIT_EVERYTHING 0xffffu
#define SDL_WINDOWPOS_CENTERED 0x2FFF0000u
#define SDL_WINDOWPOS_UNDEFINED 0x1FFF0000u
#define SDL_QUIT 0x100
#define SDL_SCANCODE_ESCAPE 41
#define SDL_SCANCODE_SPACE 44
#define SDL_SCANCODE_RIGHT 79
#define SDL_SCANCODE_LEFT 80
#define SDL_SCANCODE_DOWN 81
#define SDL_SCANCODE_UP 82
#define SDL_MUSTLOCK(s) 0
int SDL_Init(uint32_t flags);
void SDL_Quit(void);
SDL_Window *SDL_CreateWindow(const char *title, int x, int y, int w, int h, uint32_t flags);
void SDL_DestroyWindow(SDL_Window *w);
SDL_Surface *SDL_GetWindowSurface(SDL_Window *w);
int SDL_UpdateWindowSurface(SDL_Window *w);
int SDL_LockSurface(SDL_Surface *s);
void SDL_UnlockSurface(SDL_Surface *s);
uint32_t SDL_GetTicks(void);
void SDL_Delay(uint32_t ms);
int SDL_PollEvent(SDL_Event *e);
void SDL_PumpEvents(void);
const uint8_t *SDL_GetKeyboardState(int *n);
const char *SDL_GetError(void);
void SDL_SetWindowTitle(SDL_Window *w, const char *t);
#ifdef __cplusplus
}
#endif
