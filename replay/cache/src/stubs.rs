// Stand-ins for the crates the actor names and does not depend on for what is
// checked: attestation reference values, the clock and the random generator.
pub mod oak {
    pub mod attestation {
        pub mod v1 {
            pub mod binary_reference_value { #[derive(Clone, Debug, PartialEq)] pub enum Type { Skip(super::SkipVerification) } }
            pub mod text_reference_value { #[derive(Clone, Debug, PartialEq)] pub enum Type { Skip(super::SkipVerification) } }
            pub mod kernel_binary_reference_value { #[derive(Clone, Debug, PartialEq)] pub enum Type { Skip(super::SkipVerification) } }
            pub mod reference_values { #[derive(Clone, Debug, PartialEq)] pub enum Type { OakRestrictedKernel(super::OakRestrictedKernelReferenceValues) } }
            macro_rules! msg { ($($n:ident { $($f:ident: $t:ty),* })*) => { $(#[derive(Default, Clone, Debug, PartialEq)] pub struct $n { $(pub $f: Option<$t>,)* })* } }
            msg! {
                SkipVerification {} InsecureReferenceValues {}
                BinaryReferenceValue { r#type: binary_reference_value::Type }
                TextReferenceValue { r#type: text_reference_value::Type }
                KernelBinaryReferenceValue { r#type: kernel_binary_reference_value::Type }
                ReferenceValues { r#type: reference_values::Type }
                OakRestrictedKernelReferenceValues { root_layer: RootLayerReferenceValues, kernel_layer: KernelLayerReferenceValues, application_layer: ApplicationLayerReferenceValues }
                RootLayerReferenceValues { insecure: InsecureReferenceValues }
                KernelLayerReferenceValues { kernel: KernelBinaryReferenceValue, kernel_cmd_line_text: TextReferenceValue, init_ram_fs: BinaryReferenceValue, memory_map: BinaryReferenceValue, acpi: BinaryReferenceValue }
                ApplicationLayerReferenceValues { binary: BinaryReferenceValue, configuration: BinaryReferenceValue }
            }
        }
    }
}
