#pragma once
namespace absl { 
inline namespace debian3 { inline void InitializeLog() {} }
}
