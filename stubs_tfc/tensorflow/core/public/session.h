// Dependency stand-in: sessions and saved model bundles.
#ifndef STUB_TF_SESSION_H_
#define STUB_TF_SESSION_H_
#include <memory>
#include <string>
namespace tensorflow {
using string = std::string;
class Session {};
struct SavedModelBundle { std::unique_ptr<Session> session; Session* GetSession() const { return session.get(); } };
}
#endif
